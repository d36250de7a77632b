From db1d86e3f0f931a3fc3005bf351dce5a62643750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 01/78] vvflow: add VVFLOW_MONITOR observation points to the
 simulation loop

---
 utils/vvflow/vvflow.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..183ca25 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -35,6 +35,15 @@
 //#define dbg(a) cerr << "Doing " << #a << "... " << flush; a; cerr << "done\n";
 #define seek(f) while (fgetc(f)!='\n'){}
 
+// Runtime monitoring hook: the monitor (vvmon.hpp) is supplied by an external
+// harness at build time and observes the state between the phases of a step.
+#ifdef VVFLOW_MONITOR
+#include "vvmon.hpp"
+#define VVMON(phase) vvmon::observe(phase, S, tr, collision)
+#else
+#define VVMON(phase)
+#endif
+
 using std::cerr;
 using std::endl;
 using std::shared_ptr;
@@ -213,15 +222,18 @@ int simulate (lua_State *L) {
     const void* collision = nullptr;
     while (S.time < S.finish + S.dt/2)
     {
+        VVMON("begin");
         if (S.BodyList.size())
         {
             dbg(tr.build());
+            VVMON("tree1");
 
             // решаем слау
             if (collision != nullptr) {
                 convective.calc_circulation(&collision);
             }
             convective.calc_circulation(&collision);
+            VVMON("solve");
 
             dbg(tr.destroy());
         }
@@ -234,32 +246,43 @@ int simulate (lua_State *L) {
             snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
             S.save(tmp_filename);
             stepdata.flush();
+            VVMON("save");
         }
 
+        VVMON("preshed");
         dbg(flowmove.vortex_shed());
         dbg(flowmove.streak_shed());
+        VVMON("shed");
 
         dbg(S.calc_forces());
+        VVMON("forces");
         stepdata.write();
         S.zero_forces();
+        VVMON("zero");
 
         dbg(tr.build());
+        VVMON("tree2");
         dbg(epsilon.CalcEpsilonFast(/*merge=*/is_viscous));
+        VVMON("eps");
         dbg(convective.process_all_lists());
+        VVMON("conv");
         dbg(sens.output());
         if (is_viscous)
         {
             dbg(diffusive.process_vort_list());
             dbg(diffusive.process_heat_list());
         }
+        VVMON("diff");
         dbg(tr.destroy());
 
         dbg(flowmove.move_and_clean(true, &collision));
+        VVMON("move");
             #ifdef OVERRIDEMOI
                     S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
             #endif
         dbg(flowmove.heat_crop());
         S.time = TTime::add(S.time, S.dt);
+        VVMON("end");
 
         if (opt::show_progress)
             fprintf(stderr, "\rt=%-10g \tN=%-10zd", double(S.time), S.VortexList.size());
-- 
2.43.0


From 8b3226d0848acc12fb319db1db76e507c153e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 02/78] fix: velocity of an isolated or coincident vortex
 without bodies was NaN

---
 libvvhd/src/MEpsilonFast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MEpsilonFast.cpp b/libvvhd/src/MEpsilonFast.cpp
index b23fd2f..1c2d6aa 100644
--- a/libvvhd/src/MEpsilonFast.cpp
+++ b/libvvhd/src/MEpsilonFast.cpp
@@ -44,7 +44,9 @@ void MEpsilonFast::CalcEpsilonFast(bool merge)
 
         double eps_restriction = nearestAtt ?
             nearestAtt->dl.abs()*(1.0/3.0)
-            : 0;
+            // without bodies eps of an isolated vortex (or of coincident ones)
+            // vanishes, its square must not underflow: 0/0 is nan
+            : 1e-100;
 
         for (TObj *lobj = lbnode->vRange.first; lobj < lbnode->vRange.last; lobj++)
         {
-- 
2.43.0


From c3cc9e5857c91806a99a945959dd017572ce9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 03/78] fix: collision was ignored when another spring degree
 of freedom was solved first

---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..e8c8c27 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -925,8 +925,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -942,8 +942,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -960,8 +960,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From 07ae301194e7e7b9e007a1ef202df0106bbfb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 04/78] fix: x-velocity of a body attached to a rotating root
 was taken at its holder, y-velocity at its axis

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index e8c8c27..fb13652 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -817,7 +817,7 @@ void MConvectiveFast::fillSpeedXEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = -1;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = 0;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = (ibody->holder.r - root_body->get_axis()).y;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = (ibody->get_axis() - root_body->get_axis()).y;
     }
 }
 
-- 
2.43.0


From 6f62c10261d00825b3223b6b7dabe8b1983fa341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 05/78] fix: loading a space kept the sinks of the previous one

---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..4a810b1 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 6bfcf114cffa46a2b5c3f97cc5a43b460627ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 06/78] fix: stepdata used the name of a body after it was
 freed

---
 libvvhd/src/MStepdata.cpp | 3 ++-
 libvvhd/src/TSpace.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..1202504 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -83,7 +83,8 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     {
         size_t body_n = S->get_body_index(lbody.get());
         if (body_n > blsize) continue;
-        const char *bname = S->get_body_name(lbody.get()).c_str();
+        const std::string body_name = S->get_body_name(lbody.get());
+        const char *bname = body_name.c_str();
         hid_t body_h5g;
         if (!H5Lexists(h5f, bname, H5P_DEFAULT))
         {
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4a810b1..aeab4a7 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -219,7 +219,7 @@ int Space::get_body_index(const TBody* body) const
 
 std::string Space::get_body_name(const TBody* body) const
 {
-    char name[8];
-    sprintf(name, "body%02d", get_body_index(body));
+    char name[16];
+    snprintf(name, sizeof(name), "body%02d", get_body_index(body));
     return std::string(name);
 }
-- 
2.43.0


From d160a334fad2a29ae96b4c957ef66a8739cdcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 07/78] fix: vortices without a core size were invisible for
 the first boundary condition

---
 utils/vvflow/vvflow.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 183ca25..c1b4cec 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -219,6 +219,17 @@ int simulate (lua_State *L) {
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
 
+    // vortices that came from a script or from an old file have no core size yet,
+    // the first boundary condition would not see them
+    for (const TObj& lobj: S.VortexList)
+    {
+        if (!lobj.g || lobj._1_eps) continue;
+        tr.build();
+        epsilon.CalcEpsilonFast(/*merge=*/false);
+        tr.destroy();
+        break;
+    }
+
     const void* collision = nullptr;
     while (S.time < S.finish + S.dt/2)
     {
-- 
2.43.0


From 62aff0e74a6b83e3a0df6eabecd9036fe7d9c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 08/78] fix: core sizes and friction were lost over a restart

---
 libvvhd/src/TSpace_load_hdf.cpp | 33 ++++++++++++++++++++
 libvvhd/src/TSpace_save_hdf.cpp | 54 +++++++++++++++++++++++++++++++++
 2 files changed, 87 insertions(+)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..7dd2f69 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -44,6 +44,33 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
         h5_throw("H5Dclose", name);
 }
 
+// returns an empty vector unless there is a dataset of exactly that size
+static std::vector<double> dataset_read_column(hid_t fid, std::string name, size_t size)
+{
+    std::vector<double> column;
+    if (!size || H5Lexists(fid, name.c_str(), H5P_DEFAULT) <= 0)
+        return column;
+
+    hid_t h5d = H5Dopen(fid, name.c_str(), H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dopen", name);
+
+    hid_t h5s = H5Dget_space(h5d);
+    if (h5s < 0)
+        h5_throw("H5Dget_space", name);
+
+    if (H5Sget_simple_extent_npoints(h5s) == hssize_t(size)) {
+        column.resize(size);
+        herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, column.data());
+        if (err < 0)
+            h5_throw("H5Dread", name);
+    }
+
+    H5Sclose(h5s);
+    H5Dclose(h5d);
+    return column;
+}
+
 static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 {
     TBody& body = *body_map[name];
@@ -204,6 +231,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     }
 
     dataset_read_list(fid, "vort", VortexList);
+    std::vector<double> cores = dataset_read_column(fid, "vort_core", VortexList.size());
+    for (size_t i=0; i<cores.size(); i++)
+        VortexList[i]._1_eps = cores[i];
     dataset_read_list(fid, "heat", HeatList);
     dataset_read_list(fid, "ink", StreakList);
     dataset_read_list(fid, "ink_source", StreakSourceList);
@@ -217,6 +247,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
         const std::shared_ptr<TBody>& lbody = pair.second;
 
         dataset_read_body(fid, name, body_map);
+        std::vector<double> friction = dataset_read_column(fid, "friction_" + name, lbody->size());
+        for (size_t i=0; i<friction.size(); i++)
+            lbody->alist[i].fric = friction[i];
         BodyList.push_back(lbody);
     }
 
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index f96cfdb..ed889e7 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -48,6 +48,58 @@ static void dataset_write_list(hid_t fid, std::string name, const std::vector<TO
         h5_throw("H5Dclose", name);
 }
 
+static void dataset_write_column(hid_t fid, std::string name, const std::vector<double>& column)
+{
+    hsize_t dims[2] = {column.size(), 1};
+    hsize_t chunkdims[2] = {std::min<hsize_t>(512, dims[0]), 1};
+    hid_t prop = H5Pcreate(H5P_DATASET_CREATE);
+    H5Pset_chunk(prop, 2, chunkdims);
+    H5Pset_deflate(prop, 9);
+
+    hid_t h5s = H5Screate_simple(2, dims, dims);
+    if (h5s < 0)
+        h5_throw("H5Screate_simple", name);
+
+    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s, H5P_DEFAULT, prop, H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dcreate", name);
+
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, column.data());
+    if (err < 0)
+        h5_throw("H5Dwrite", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+    H5Sclose(h5s);
+    H5Pclose(prop);
+}
+
+// core sizes are needed by the first step after a restart
+static void dataset_write_cores(hid_t fid, std::string name, const std::vector<TObj>& list)
+{
+    bool known = false;
+    std::vector<double> column;
+    for (const TObj& lobj: list) {
+        column.push_back(lobj._1_eps);
+        known |= lobj._1_eps != 0;
+    }
+    if (known)
+        dataset_write_column(fid, name, column);
+}
+
+// as well as friction of the previous step, it has not been logged yet
+static void dataset_write_friction(hid_t fid, std::string name, const TBody& body)
+{
+    bool known = false;
+    std::vector<double> column;
+    for (const TAtt& latt: body.alist) {
+        column.push_back(latt.fric);
+        known |= latt.fric != 0;
+    }
+    if (known)
+        dataset_write_column(fid, name, column);
+}
+
 static void dataset_write_body(hid_t fid, std::string name, std::string root_name, const TBody& body)
 {
     bool can_simplify_slip = true;
@@ -189,6 +241,7 @@ void Space::save_hdf(int64_t fid)
     h5a_write<std::string const&> (fid, "time_local", timestr);
 
     dataset_write_list(fid, "vort", VortexList);
+    dataset_write_cores(fid, "vort_core", VortexList);
     dataset_write_list(fid, "heat", HeatList);
     dataset_write_list(fid, "ink", StreakList);
     dataset_write_list(fid, "ink_source", StreakSourceList);
@@ -214,6 +267,7 @@ void Space::save_hdf(int64_t fid)
         }
 
         dataset_write_body(fid, body_name.c_str(), root_name, *lbody);
+        dataset_write_friction(fid, "friction_" + body_name, *lbody);
     }
 
     h5t_commit_all(fid);
-- 
2.43.0


From e3a0d67c9ee933fd7c69e4f6019efcbf1e372000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 09/78] fix: file names longer than 63 characters were
 truncated and '%' in a caption was taken for a format

---
 libvvhd/headers/TSpace.hpp | 2 +-
 libvvhd/src/TSpace.cpp     | 4 +---
 utils/vvflow/vvflow.cpp    | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/libvvhd/headers/TSpace.hpp b/libvvhd/headers/TSpace.hpp
index cf70e69..bdd3bb1 100644
--- a/libvvhd/headers/TSpace.hpp
+++ b/libvvhd/headers/TSpace.hpp
@@ -44,7 +44,7 @@ class Space
 
     public:
         /***************** SAVE/LOAD ******************/
-        void save(const char* format);
+        void save(const char* filename);
         void load(const char* filename, metainfo_t *info = NULL);
         void save_hdf(int64_t fid);
         void load_hdf(int64_t fid, metainfo_t *info = NULL);
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index aeab4a7..414724f 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -62,15 +62,13 @@ void Space::load(const char* fname, metainfo_t *info)
         h5_throw("H5Fclose", fname);
 }
 
-void Space::save(const char* format)
+void Space::save(const char* fname)
 {
     for (std::shared_ptr<TBody>& lbody: BodyList)
     {
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
     hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index c1b4cec..683c039 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -254,7 +254,7 @@ int simulate (lua_State *L) {
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
             char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
+            snprintf(tmp_filename, 256, "%s/%06d.h5", f_results, int(S.time/S.dt+0.5));
             S.save(tmp_filename);
             stepdata.flush();
             VVMON("save");
-- 
2.43.0


From 5627377292acc595c0b9d0260fa88d1cde91446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 10/78] fix: a failure to load or save a space aborted the
 whole process

---
 utils/vvflow/lua_space.cpp | 20 +++++++++++++++-----
 utils/vvflow/vvflow.cpp    |  7 ++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index adea519..921530d 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -9,8 +9,15 @@ static int space_load(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    S->load(fname);
-    return 0;
+    try {
+        S->load(fname);
+        return 0;
+    } catch (const std::exception &e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+        lua_concat(L, 2);
+    }
+    return lua_error(L);
 }
 
 static int space_save(lua_State *L) {
@@ -19,10 +26,13 @@ static int space_save(lua_State *L) {
     const char* fname = luaL_checkstring(L, 2);
     try {
         S->save(fname);
-    } catch (const std::invalid_argument &e) {
-        return luaL_error(L, e.what());
+        return 0;
+    } catch (const std::exception &e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+        lua_concat(L, 2);
     }
-    return 0;
+    return lua_error(L);
 }
 
 static int space_xstreamfunction(lua_State *L) {
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 683c039..3373a9b 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -168,7 +168,12 @@ int main(int argc, char* const* argv)
             throw std::runtime_error("Internal error 0x180");
         }
         Space &S = **ptr;
-        S.load(opt::input);
+        try {
+            S.load(opt::input);
+        } catch (const std::exception& e) {
+            fprintf(stderr, "%s\n", e.what());
+            return 8;
+        }
         ret = luaL_dostring(L, "simulate()");
     } else {
         ret = luaL_dofile(L, opt::input);
-- 
2.43.0


From ab0a7722cbca9bdc2348339f74f0269bd9607dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 11/78] fix: vvxtract used names of unlabeled bodies after they
 were freed

---
 utils/vvxtract/vvxtract.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 04fa51c..6a25b19 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -110,13 +110,9 @@ int main(int argc, char **argv)
         {
             const TBody& b = *lbody;
             printf("\n");
-            const char* blabel;
+            const std::string body_name = b.label.empty() ? S.get_body_name(&b) : b.label;
+            const char* blabel = body_name.c_str();
             printf("-- %s (%s)", S.get_body_name(&b).c_str(), b.label.c_str());
-            if (!b.label.empty()){
-                blabel = b.label.c_str();
-            } else {
-                blabel = S.get_body_name(&b).c_str();
-            }
             printf("\n");
             #define S2D(v) v.x, v.y
             #define S3D(v) v.r.x, v.r.y, v.o
@@ -150,13 +146,8 @@ int main(int argc, char **argv)
                 printf("%s.root = nil\n", blabel);
             } else {
                 shared_ptr<TBody> lroot = b.root_body.lock();
-                const char* rlabel;
-                if (!lroot->label.empty()){
-                    rlabel = lroot->label.c_str();
-                } else {
-                    rlabel = S.get_body_name(lroot.get()).c_str();
-                }
-                printf("%s.root = %s\n", blabel, rlabel);
+                const std::string root_name = lroot->label.empty() ? S.get_body_name(lroot.get()) : lroot->label;
+                printf("%s.root = %s\n", blabel, root_name.c_str());
             }
 
             printf("-- #%s = %zd -- number of segments\n", blabel, b.size());
-- 
2.43.0


From ecf6076cd35bb43af36fc7449619834dbd6031bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 12/78] fix: vvxtract swapped sizes of streak sources and
 streak domains

---
 utils/vvxtract/vvxtract.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 6a25b19..4056c78 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -103,8 +103,8 @@ int main(int argc, char **argv)
         printf("-- #S.body_list = %zd -- number of elements\n", long(S.BodyList.size()));
         printf("-- #S.vort_list = %zd\n", long(S.VortexList.size()));
         printf("-- #S.sink_list = %zd\n", long(S.SourceList.size()));
-        printf("-- #S.streak_source_list = %zd\n", long(S.StreakList.size()));
-        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_source_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakList.size()));
 
         for (shared_ptr<TBody>& lbody: S.BodyList)
         {
-- 
2.43.0


From 2ebde4f99dee3b0296c3cd787c75ab247326224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 13/78] fix: slip condition set from a script was ignored by
 the first step

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..8ed99ff 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties();
     return 0;
 }
 
-- 
2.43.0


From cf3dde16b1fdc14193433dad687817e80b855a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 14/78] fix: absent slip column was inherited from the previous
 line

---
 libvvhd/src/TBody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 0143ceb..5fa1aac 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -361,6 +361,7 @@ int TBody::load_txt(const char* filename)
     char line[128];
     while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
     {
+        slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
         alist.emplace_back(corner, slip);
     }
-- 
2.43.0


From 93288c1eee7895084f562036ce24ba876d0e8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 15/78] fix: order of bodies changed on load if there were more
 than 100 of them

---
 libvvhd/src/TSpace_load_hdf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 7dd2f69..dc352c6 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,13 @@
 #include "vvhdf.h"
 
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+// body99 comes before body100
+struct body_name_less {
+    bool operator() (const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-- 
2.43.0


From f6ec654b578f896a2625d643bfae3159694c9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 16/78] fix: gen_parallelogram without an angle produced an
 infinite body

---
 utils/vvflow/gen_parallelogram.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 2a46d43..aae428c 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -27,8 +27,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     H_ = get_param(L, "H",  "positive", std::numeric_limits<lua_Number>::min());
     d_ = get_param(L, "d", "in range (0, 180)",
         /*min*/ std::numeric_limits<lua_Number>::min(),
-        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()),
-        /*default*/ 0);
+        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()));
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From 9a044dbf64ef1fc7e0a11a9fc39e3c307fbce912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 17/78] fix: decimal time lost its last digit (S.time=0.29 was
 0.28) and overflowed

---
 libvvhd/headers/TTime.hpp | 13 ++++++++-----
 utils/vvflow/getset.cpp   |  4 ++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 4ac5d3a..49e503c 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <string>
 
@@ -21,13 +22,15 @@ class TTime
 
         static TTime makeWithSecondsDecimal(double seconds)
         {
+            const double limit = INT32_MAX/10;
             uint32_t newTS = 1;
-            while ((int32_t(seconds*newTS)/double(newTS) != seconds) && (newTS<0x19999999)/*0xffffffff/10*/)
+            while ((round(seconds*newTS)/newTS != seconds) && (newTS<0x19999999)/*0xffffffff/10*/
+                    && (fabs(seconds)*newTS < limit))
             { newTS*= 10; }
-            while (!(int32_t(seconds*newTS)%10) && (newTS > 1))
-            { newTS/= 10; }
-            //fprintf(stderr, "%lf sec -> %d / %u\n", seconds, int32_t(seconds*newTS), newTS);
-            return TTime(int32_t(seconds*newTS), newTS);
+            int32_t newV = round(seconds*newTS);
+            while (!(newV%10) && (newTS > 1))
+            { newV/= 10; newTS/= 10; }
+            return TTime(newV, newTS);
         }
 
         static TTime add(TTime time1, TTime time2)
diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index cd428aa..7c646c8 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -68,6 +68,10 @@ int luavvd_setTTime(lua_State *L) {
     int isnum[2];
     switch (lua_type(L, 2)) {
     case LUA_TNUMBER:
+        if (!(fabs(lua_tonumber(L, 2)) <= INT32_MAX)) {
+            lua_pushfstring(L, "TTime can not represent %f", lua_tonumber(L, 2));
+            return 1;
+        }
         *t = TTime::makeWithSecondsDecimal(lua_tonumber(L, 2));
         return 0;
     case LUA_TTABLE:
-- 
2.43.0


From 1c0274e05defb3df21bf81ad3735393825bec191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 18/78] fix: too large time fractions were silently truncated,
 {1, 2^32} to a zero denominator

---
 utils/vvflow/getset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 7c646c8..850e50b 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -92,6 +92,9 @@ int luavvd_setTTime(lua_State *L) {
         } else if (lua_tointeger(L, -1)<1) {
             lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
             return 1;
+        } else if (lua_tointeger(L, -2) != nt.value || lua_tointeger(L, -1) != nt.timescale) {
+            lua_pushfstring(L, "TTime can not represent {%I, %I}", lua_tointeger(L, -2), lua_tointeger(L, -1));
+            return 1;
         }
         *t = nt;
         return 0;
-- 
2.43.0


From 327ee08214b8eb540e00fab538290ea706f521d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 19/78] fix: divisibility of times with large denominators was
 wrong

---
 libvvhd/headers/TTime.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 49e503c..0cb7056 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -49,8 +49,8 @@ class TTime
             // divisor = делитель
             if (!divisor.value || !divisor.timescale)
                 return false;
-            uint32_t lcm_ts = lcm(timescale, divisor.timescale);
-            return !((int64_t(value)*lcm_ts/timescale) % (int64_t(divisor.value)*lcm_ts/divisor.timescale));
+            // a/b is divisible by c/d if a*d is divisible by c*b
+            return !((int64_t(value)*divisor.timescale) % (int64_t(divisor.value)*timescale));
         }
 
     public:
-- 
2.43.0


From 52178265e4d18e56c6b1f474d11f93fee27cd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 20/78] fix: sum of times overflowed, the simulation never
 reached its finish

---
 libvvhd/headers/TTime.hpp | 43 ++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 0cb7056..aed5a30 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -2,6 +2,8 @@
 
 #include <cmath>
 #include <cstdint>
+#include <cstdio>
+#include <stdexcept>
 #include <string>
 
 class TTime
@@ -35,11 +37,16 @@ class TTime
 
         static TTime add(TTime time1, TTime time2)
         {
-            uint32_t newTS = lcm(time1.timescale, time2.timescale);
-            return TTime(
-                    time1.value*(newTS/time1.timescale)
-                    + time2.value*(newTS/time2.timescale)
-                    , newTS);
+            if (!time1.timescale || !time2.timescale)
+                throw std::invalid_argument("TTime: zero timescale");
+            uint64_t scale1 = time2.timescale/gcd(time1.timescale, time2.timescale);
+            uint64_t scale2 = time1.timescale/gcd(time1.timescale, time2.timescale);
+            uint64_t newTS = time1.timescale*scale1; // least common multiple
+            double newV = double(time1.value)*scale1 + double(time2.value)*scale2;
+            if (newTS > UINT32_MAX || fabs(newV) > INT32_MAX)
+                throw std::overflow_error("TTime: can not represent "
+                    + std::string(time1) + " + " + std::string(time2));
+            return TTime(newV, newTS);
         }
 
         bool divisibleBy(TTime divisor)
@@ -63,28 +70,14 @@ class TTime
         }
 
     private:
-        static uint32_t lcm(uint32_t x, uint32_t y)
+        static uint32_t gcd(uint32_t x, uint32_t y)
         {
-            if (x == y) return x;
-            if (!x || !y) return 1;
-            uint32_t result = 1;
-            uint32_t k = 2;
-            while ((x!=1) || (y!=1))
+            while (y)
             {
-                bool kIsPrime = true;
-                for (uint32_t d = 2; d<k/2; d++) { if (!k%d) {kIsPrime = false; break;}}
-                if (!kIsPrime) {k++; continue;}
-                int xk(x%k), yk(y%k);
-                if (!xk || !yk)
-                {
-                    if (result > (1<<31)/k) { /*overflow*/ return result; }
-                    result*=k;
-                    if (!xk) x/=k;
-                    if (!yk) y/=k;
-                    k = 2; continue;
-                }
-                k++;
+                uint32_t r = x%y;
+                x = y;
+                y = r;
             }
-            return result;
+            return x;
         }
 };
-- 
2.43.0


From 55e156975ff7041b6591d370046f2afe5b67f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 21/78] fix: errors during a simulation aborted the process or
 were reported as a success

---
 utils/vvflow/vvflow.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 3373a9b..e6f2f53 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -159,6 +159,7 @@ int main(int argc, char* const* argv)
     }
     lua_setglobal(L, "arg");
 
+    try {
     if (H5Fis_hdf5(opt::input)) {
         lua_getglobal(L, "S");
         Space **ptr = (Space**)lua_touserdata(L, -1);
@@ -168,16 +169,15 @@ int main(int argc, char* const* argv)
             throw std::runtime_error("Internal error 0x180");
         }
         Space &S = **ptr;
-        try {
-            S.load(opt::input);
-        } catch (const std::exception& e) {
-            fprintf(stderr, "%s\n", e.what());
-            return 8;
-        }
+        S.load(opt::input);
         ret = luaL_dostring(L, "simulate()");
     } else {
         ret = luaL_dofile(L, opt::input);
     }
+    } catch (const std::exception& e) {
+        fprintf(stderr, "%s\n", e.what());
+        return 8;
+    }
 
     if (ret) {
         fprintf(stderr, "%s\n", lua_tostring(L, -1));
@@ -199,7 +199,7 @@ int simulate (lua_State *L) {
     Space &S = **ptr;
 
     // error checking
-    #define RAISE(STR) { cerr << "vvflow ERROR: " << STR << endl; return -1; }
+    #define RAISE(STR) { return luaL_error(L, "vvflow ERROR: " STR); }
     if (S.re <= 0) RAISE("invalid value re<=0");
     #undef RAISE
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
-- 
2.43.0


From 0249a04958ea1e8fe77279839d304cc8b81ea018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 22/78] fix: an error in a math expression terminated the
 process

---
 libvvhd/src/TEval.cpp      | 28 +++++++++++++++-------------
 utils/vvflow/lua_teval.cpp |  9 +++++++--
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index 4fe2f0d..941eac4 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -168,6 +168,7 @@ double TEval::eval(double t) const
         return 0;
 
     double ret = 0;
+    std::string error; // an exception must not leave the critical section
 #pragma omp critical
     {
         if (t == cacheTime2) {
@@ -181,24 +182,25 @@ double TEval::eval(double t) const
 
             lua_getglobal(L, "_evaluator");
             err = lua_pcall(L, 0, 1, 0);
+            int isnum = 0;
+            ret = lua_tonumberx(L, -1, &isnum);
             if (err) {
-                std::string e = lua_tostring(L, -1);
-                lua_pop(L, 1);
-                throw std::invalid_argument(e);
+                const char* e = lua_tostring(L, -1);
+                error = e ? e : "unknown error";
+            } else if (!isnum) {
+                error = "invalid return type";
+            } else {
+                cacheTime2 = cacheTime1;
+                cacheValue2 = cacheValue1;
+                cacheTime1 = t;
+                cacheValue1 = ret;
             }
-            int isnum;
-            ret = lua_tonumberx(L, -1, &isnum);
             lua_pop(L, 1);
-            if (!isnum) {
-                throw std::invalid_argument("invalid return type");
-            }
-
-            cacheTime2 = cacheTime1;
-            cacheValue2 = cacheValue1;
-            cacheTime1 = t;
-            cacheValue1 = ret;
         }
     }
 
+    if (!error.empty())
+        throw std::invalid_argument(error);
+
     return ret;
 }
diff --git a/utils/vvflow/lua_teval.cpp b/utils/vvflow/lua_teval.cpp
index 8e3f2b8..adb2c9f 100644
--- a/utils/vvflow/lua_teval.cpp
+++ b/utils/vvflow/lua_teval.cpp
@@ -9,8 +9,13 @@ static int teval_eval(lua_State *L) {
     TEval* script = checkTEval(L, 1);
     lua_Number val = luaL_checknumber(L, 2);
 
-    lua_pushnumber(L, script->eval(val));
-    return 1;
+    try {
+        lua_pushnumber(L, script->eval(val));
+        return 1;
+    } catch (const std::invalid_argument& e) {
+        lua_pushstring(L, e.what());
+    }
+    return lua_error(L);
 }
 
 static int teval_tostring(lua_State *L) {
-- 
2.43.0


From ebff3f2d1641c8de4275ee0c314fb7643790c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 23/78] fix: percentile of a field with few nonzero values was
 read out of bounds

---
 libvvhd/src/XField.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..1fcdfe0 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -116,7 +116,10 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty())
+        return 0;
+
+    size_t N = std::max<size_t>(1, std::floor(v.size()*p));
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From 76063a572a9cbcc8dc13d5733f30aa54d86efb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 24/78] fix: a field file with a single row was read out of
 bounds

---
 libvvhd/src/XField.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index 1fcdfe0..bf39328 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -27,7 +27,7 @@ XField::XField(
 XField::XField(const std::string& str):
     xmin(0), ymin(0), dxdy(0),
     xres(0), yres(0),
-    map(new float[xres*yres]),
+    map(nullptr),
     gaps(),
     evaluated(false)
 {
@@ -38,14 +38,14 @@ XField::XField(const std::string& str):
 
     const float* data = reinterpret_cast<const float*>(str.c_str());
     float N = data[0];
-    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0) {
+    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0 || N >= str.size()/sizeof(float)) {
         fprintf(stderr, "N = %lg\n", N);
         throw std::invalid_argument("XField(str): invalid data");
     }
 
     xres = N;
     yres = str.size()/sizeof(float)/(xres+1) - 1;
-    if (str.size() != sizeof(float)*(xres+1)*(yres+1))
+    if (yres < 2 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
     float dx = data[2] - data[1];
-- 
2.43.0


From 15e6714433fc2e3214e3d0821eb0731c8a2a64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 25/78] fix: vvplot crashed on unreadable input, on a body
 reference frame without bodies and on an empty body

---
 utils/vvplot/vvplot.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bc53b46..bfcba3a 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -88,6 +88,12 @@ int main_hdf(int argc, char **argv)
     Space S;
     S.load(opt::input);
 
+    bool body_ref = strchr("bxy", opt::ref_xy)
+        || (opt::P && opt::ref_P == 'b')
+        || ((opt::S || opt::U) && opt::ref_S == 'b');
+    if (body_ref && S.BodyList.empty())
+        throw std::invalid_argument("body reference frame requires a body");
+
     Gnuplotter gp;
 
     /* This is the gnuplot script itself */
@@ -399,7 +405,7 @@ int main_hdf(int argc, char **argv)
             float f[2] = {float(p.x), float(p.y)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
         }
-        { /* close the curve */
+        if (b.size()) { /* close the curve */
             TVec p = b.alist.front().corner;
             float f[2] = {float(p.x), float(p.y)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
@@ -566,9 +572,14 @@ int main(int argc, char **argv)
 {
     opt::parse(argc, argv);
 
-    if (opt::ifmt == ffmt::hdf) {
-        return main_hdf(argc, argv);
-    } else {
-        return main_tar(argc, argv);
+    try {
+        if (opt::ifmt == ffmt::hdf) {
+            return main_hdf(argc, argv);
+        } else {
+            return main_tar(argc, argv);
+        }
+    } catch (const std::exception& e) {
+        std::cerr << "vvplot: " << e.what() << std::endl;
+        return 1;
     }
 }
-- 
2.43.0


From c76cc81019bce101bc900dbb969fcdfede6bc283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 26/78] fix: isolines of a field with an infinite minimum were
 never finished

---
 libvvhd/src/XIsoline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index f1ca96f..d2d4d62 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -28,6 +28,8 @@ XIsoline::XIsoline(
 {
     if (!field.evaluated)
         throw std::invalid_argument("XIsoline(): field is not evaluated");
+    if (!isfinite(vmin))
+        throw std::invalid_argument("XIsoline(): vmin must be finite");
     if (!isfinite(vmax))
         throw std::invalid_argument("XIsoline(): vmax must be finite");
     if (!(vmin <= vmax))
-- 
2.43.0


From 5c8e76354fc921d7537aa294cc63e0560e408074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 27/78] fix: vvplot left the tail of an overwritten longer
 image

---
 utils/vvplot/gnuplotter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index f982b05..cc307ea 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -97,7 +97,7 @@ void Gnuplotter::exec(const std::string& filename)
 {
     std::string script_str = script.str();
 
-    int fd = open(filename.c_str(), O_WRONLY|O_CREAT, 0644);
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
     if (fd < 0) {
         std::string err = "Error opening '" + filename + "': ";
         err += strerror(errno);
-- 
2.43.0


From 64537ca8ba9dda1c236e9e9b35076e716b20dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 28/78] fix: sink core radius was computed with the integer abs
 of the strength

abs() resolved to ::abs(int): any sink weaker than 1 got no core at all, so a
particle near it was thrown away by more than its distance in a single step.
---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index fb13652..6323c0d 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -162,7 +162,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     for (const auto& src: S->SourceList)
     {
         TVec dr = p - src.r;
-        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
+        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
 
     res *= C_1_2PI;
-- 
2.43.0


From c56f6933c9e3d31f6457629527f36d7a72225d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 29/78] fix: friction torque was taken about the origin instead
 of the body axis

It enters the torque balance of the body, whose other terms are about its axis,
so a body that is free to rotate behaved differently depending on where in the
plane it was placed.
---
 libvvhd/src/TSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 414724f..41cc0df 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -108,7 +108,7 @@ void Space::calc_forces()
             latt.Nu += latt.hsum * (re*pr / latt.dl.abs());
 
             lbody->friction.r -= latt.dl * (latt.fric * C_Nyu_Pi / latt.dl.abs());
-            lbody->friction.o -= (rotl(latt.r)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
+            lbody->friction.o -= (rotl(latt.r - lbody->get_axis())* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
             lbody->nusselt += latt.hsum * (re*pr);
         }
 
-- 
2.43.0


From 763aabcdd3ae05d8865df221c018ee88e100dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 30/78] vvflow: observe the first of the two solves of a
 collision (VVFLOW_MONITOR)

---
 utils/vvflow/vvflow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index e6f2f53..4036b29 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -247,6 +247,7 @@ int simulate (lua_State *L) {
             // решаем слау
             if (collision != nullptr) {
                 convective.calc_circulation(&collision);
+                VVMON("solve1");
             }
             convective.calc_circulation(&collision);
             VVMON("solve");
-- 
2.43.0


From d8b3ecf3929530d79b996564d68a026bdfe1e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 31/78] fix: time ran backwards for a body slightly beyond its
 movement limit

A body exceeds its limit by a rounding error, or by the second order
correction if it is attached to a rotating one. The next step to the limit was
then negative, and huge for a slow body: the whole flow was moved backwards.
---
 libvvhd/src/MFlowmove.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..9684c61 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -42,10 +42,12 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
             double dt_ = d_nan;
             if (TBody::isrigid(*kspring_[i])) {
                 /* do nothing */
-            } else if (new_pos[i] > max[i]) {
-                dt_ = (max[i] - cur_pos[i]) / speed[i];
-            } else if (new_pos[i] < min[i]) {
-                dt_ = (min[i] - cur_pos[i]) / speed[i];
+            } else if (new_pos[i] > max[i] && speed[i] > 0) {
+                // the limit may be already exceeded (by rounding errors, or due to
+                // the motion of the root body), but time must not run backwards
+                dt_ = std::max(0., (max[i] - cur_pos[i]) / speed[i]);
+            } else if (new_pos[i] < min[i] && speed[i] < 0) {
+                dt_ = std::max(0., (min[i] - cur_pos[i]) / speed[i]);
             }
 
             if (dt_ < current_dt) {
-- 
2.43.0


From 91687e5cc6bec6b6c1e60965664a01562921f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 32/78] fix: point exactly level with a local extremum of a
 contour was classified by one crossing too many

---
 libvvhd/src/TBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 5fa1aac..6e1908b 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -259,7 +259,7 @@ TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
                     (vi.y < vj.y) && (vi.y < p.y) && (p.y <= vj.y) &&
                     ((vj.y - vi.y) * (p.x - vi.x) > (vj.x - vi.x) * (p.y - vi.y))
             ) || (
-                (vi.y > vj.y) && (vi.y > p.y) && (p.y >= vj.y) &&
+                (vi.y > vj.y) && (vi.y >= p.y) && (p.y > vj.y) &&
                 ((vj.y - vi.y) * (p.x - vi.x) < (vj.x - vi.x) * (p.y - vi.y))
                 )) inContour = !inContour;
     }
-- 
2.43.0


From 8def8480370b17c4f82a7b3e61a2776e5a54382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 33/78] fix: a time given as a table with fractional numbers
 was silently truncated

---
 utils/vvflow/getset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 850e50b..35669ce 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -92,8 +92,8 @@ int luavvd_setTTime(lua_State *L) {
         } else if (lua_tointeger(L, -1)<1) {
             lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
             return 1;
-        } else if (lua_tointeger(L, -2) != nt.value || lua_tointeger(L, -1) != nt.timescale) {
-            lua_pushfstring(L, "TTime can not represent {%I, %I}", lua_tointeger(L, -2), lua_tointeger(L, -1));
+        } else if (lua_tonumber(L, -2) != nt.value || lua_tonumber(L, -1) != nt.timescale) {
+            lua_pushfstring(L, "TTime can not represent {%f, %f}", lua_tonumber(L, -2), lua_tonumber(L, -1));
             return 1;
         }
         *t = nt;
-- 
2.43.0


From 20ebcbe75591a68c9cd49edabb09632239db00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 34/78] fix: an integer setting given a fraction or an
 out-of-range number was silently truncated

---
 utils/vvflow/getset.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 35669ce..f95232c 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -26,6 +26,10 @@ int luavvd_setint32(lua_State *L) {
         lua_pushfstring(L, "integer expected, got %s", luaL_typename(L, 2));
         return 1;
     }
+    if (lua_tonumber(L, 2) != int32_t(val)) {
+        lua_pushfstring(L, "integer expected, got %f", lua_tonumber(L, 2));
+        return 1;
+    }
 
     *num = val;
     return 0;
-- 
2.43.0


From 34aa621c77792c80fe3afa0847d7a36bf11f6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 35/78] fix: the spacing of a loaded field was taken from its
 first two points, losing the grid of a field far from the origin

---
 libvvhd/src/XField.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index bf39328..bae446d 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -48,8 +48,8 @@ XField::XField(const std::string& str):
     if (yres < 2 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
-    float dx = data[2] - data[1];
-    float dy = data[2*(xres+1)] - data[1*(xres+1)];
+    float dx = (data[xres] - data[1])/(xres-1);
+    float dy = (data[yres*(xres+1)] - data[1*(xres+1)])/(yres-1);
     if (fabs(dx-dy) > std::min(fabs(dx), fabs(dy))/1000 ) {
         fprintf(stderr, "Bad spacing: %lg != %lg (diff %lg)\n",
             dx, dy, fabs(dx-dy)
@@ -59,7 +59,7 @@ XField::XField(const std::string& str):
 
     xmin = data[1];
     ymin = data[1*(xres+1)];
-    dxdy = data[2]-data[1];
+    dxdy = dx;
     map = new float[xres*yres];
     for (int yj=0; yj<yres; yj++)
     {
-- 
2.43.0


From 720c7273fdd7824e7c287d4631f5dbbc165b3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 36/78] fix: a field with a zero, negative or NaN grid spacing
 was accepted

---
 libvvhd/src/XField.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index bae446d..b71da34 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -56,6 +56,8 @@ XField::XField(const std::string& str):
         );
         throw std::invalid_argument("XField(str): non-uniform grid");
     }
+    if (!std::isfinite(dx) || !std::isfinite(dy) || dx <= 0 || dy <= 0)
+        throw std::invalid_argument("XField(str): invalid spacing");
 
     xmin = data[1];
     ymin = data[1*(xres+1)];
-- 
2.43.0


From 431cf4d8b8f89ec514cafba7d63c4ecd66bfd01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 37/78] fix: an isoline was lost or broken where the field
 equals the level exactly at grid points

---
 libvvhd/src/XIsoline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index d2d4d62..5fbb108 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -72,7 +72,7 @@ XIsoline::XIsoline(
 inline static
 bool inrange(float z1, float z2, float c)
 {
-    return (z1 <= c && c < z2) || (z1 >= c && c > z2);
+    return (z1 <= c && c < z2) || (z1 > c && c >= z2);
 }
 
 void XIsoline::merge_lines(TLine* dst, bool dst_side)
-- 
2.43.0


From b1c8576d2126be174f350c43292f4043666838ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 38/78] fix: a body without segments, a special segment out of
 range, a root that is not simulated, circular roots or a non-positive dt
 crashed or hung the simulation

---
 utils/vvflow/lua_tbody.cpp |  5 +++++
 utils/vvflow/vvflow.cpp    | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 8ed99ff..4e949bc 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -27,6 +27,11 @@ int luavvd_setslip(lua_State *L) {
 int luavvd_getslip(lua_State *L) {
     TBody* body = (TBody*)lua_touserdata(L, 1);
 
+    if (body->alist.empty()) {
+        lua_pushnil(L);
+        return 1;
+    }
+
     uint32_t slip = body->alist.begin()->slip;
     for (auto& latt: body->alist) {
         if (latt.slip != slip) {
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4036b29..fdaa874 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -201,6 +201,20 @@ int simulate (lua_State *L) {
     // error checking
     #define RAISE(STR) { return luaL_error(L, "vvflow ERROR: " STR); }
     if (S.re <= 0) RAISE("invalid value re<=0");
+    if (!(double(S.dt) > 0)) RAISE("invalid value dt<=0");
+    for (auto& lbody: S.BodyList) {
+        if (!lbody->size()) RAISE("a body has no segments");
+        if (lbody->special_segment_no < 0 || size_t(lbody->special_segment_no) >= lbody->size())
+            RAISE("special_segment is out of range");
+        const TBody* root = lbody->root_body.lock().get();
+        for (size_t n = 0; root; n++) {
+            bool found = false;
+            for (auto& ljbody: S.BodyList) found = found || ljbody.get() == root;
+            if (!found) RAISE("root of a body is not in body_list");
+            if (n >= S.BodyList.size()) RAISE("bodies are roots of each other");
+            root = root->root_body.lock().get();
+        }
+    }
     #undef RAISE
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
-- 
2.43.0


From c142c958b8df6c85e89dc0dac9ee08d0fe25ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 39/78] fix: gen_plate accepted radii that differ by more than
 the length and start beyond stop

---
 utils/vvflow/gen_plate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 8dc94d9..bdb153e 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -30,6 +30,7 @@ int luavvd_gen_plate(lua_State *L) {
     R2 = get_param(L, "R2", ">= 0", 0);
     luaL_argcheck(L, (R1>0)|(R2>0), 1, "either 'R1' or 'R2' must be > 0");
     Ll = get_param(L, "L",  "positive", std::numeric_limits<double>::min());
+    luaL_argcheck(L, fabs(R2-R1)<Ll, 1, "'L' must be larger than the difference of 'R1' and 'R2'");
     start = get_param(L, "start", "in range [0, 1)",
         /*min*/ 0,
         /*max*/ 1 - std::numeric_limits<double>::epsilon(),
@@ -43,6 +44,7 @@ int luavvd_gen_plate(lua_State *L) {
         /*max*/ std::numeric_limits<double>::infinity(),
         /*default*/ 0
     );
+    luaL_argcheck(L, start<stop, 1, "'start' must be less than 'stop'");
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From 6f5120b22f82c2011a8b59b78736bd4668bf62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 40/78] fix: a long line of a body file was read as two

---
 libvvhd/src/TBody.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 6e1908b..7ad8f9c 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -1,6 +1,7 @@
 #include "TBody.hpp"
 
 #include <cstdio>
+#include <cstdlib>
 #include <limits>
 
 using std::numeric_limits;
@@ -358,8 +359,9 @@ int TBody::load_txt(const char* filename)
     TVec corner;
     uint32_t slip = false;
     int  err = 0;
-    char line[128];
-    while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
+    char *line = NULL;
+    size_t line_size = 0;
+    while ( !err && getline(&line, &line_size, fin) >= 0 )
     {
         slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
@@ -367,6 +369,7 @@ int TBody::load_txt(const char* filename)
     }
 
     err |= ferror(fin);
+    free(line);
     fclose(fin);
 
     if (err) {
-- 
2.43.0


From 01b6c97992bec15b18be25b8eba932db1e7e1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 41/78] fix: a list was extended in part by a refused append
 and appending its own elements read freed memory

---
 utils/vvflow/lua_objlist.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..500dd26 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -11,15 +11,22 @@ using std::vector;
 static int objlist_append(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     int isobj;
+    int top = lua_gettop(L);
 
-    for (int i=2; i<=lua_gettop(L); i++) {
-        TObj obj = lua_toTObjx(L, i, &isobj);
+    for (int i=2; i<=top; i++) {
+        lua_toTObjx(L, i, &isobj);
         if (!isobj) {
             luaL_argerror(L, i, "expected TObj");
         }
-        li->push_back(obj);
     }
 
+    // arguments may refer to elements of this very list
+    vector<TObj> objs;
+    for (int i=2; i<=top; i++) {
+        objs.push_back(lua_toTObjx(L, i, &isobj));
+    }
+    li->insert(li->end(), objs.begin(), objs.end());
+
     return 0;
 }
 
-- 
2.43.0


From a022c01373ece9c795334981594cf3ef3810b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 42/78] fix: an unreadable binary particle list was silently
 ignored

---
 libvvhd/src/TSpace.cpp       | 6 ++++--
 utils/vvflow/lua_objlist.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 41cc0df..39db52e 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -153,8 +153,9 @@ int Space::load_list_txt(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    bool err = ferror(fin);
     fclose(fin);
-    return 0;
+    return err ? EIO : 0;
 }
 
 int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
@@ -169,8 +170,9 @@ int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    bool err = fin.bad();
     fin.close();
-    return 0;
+    return err ? EIO : 0;
 }
 
 int Space::load_body_txt(const char* filename)
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index 500dd26..d20fc71 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -49,7 +49,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
-- 
2.43.0


From f244b973167dc96b9c2b53694c49b8da5ba94638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 43/78] fix: a run resumed from a snapshot of the step after a
 collision lost the bounce

---
 libvvhd/headers/TBody.hpp       |  2 ++
 libvvhd/headers/TSpace.hpp      |  3 +++
 libvvhd/src/TBody.cpp           |  2 ++
 libvvhd/src/TSpace.cpp          | 24 ++++++++++++++++++++++++
 libvvhd/src/TSpace_load_hdf.cpp |  1 +
 libvvhd/src/TSpace_save_hdf.cpp |  2 ++
 utils/vvflow/vvflow.cpp         |  3 ++-
 7 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/libvvhd/headers/TBody.hpp b/libvvhd/headers/TBody.hpp
index d67231e..b900c1c 100644
--- a/libvvhd/headers/TBody.hpp
+++ b/libvvhd/headers/TBody.hpp
@@ -85,6 +85,8 @@ class TBody
         TVec3D collision_min;
         TVec3D collision_max;
         double bounce;
+        // the limit reached by the last step: 0 - none, 1 - x, 2 - y, 3 - o
+        uint32_t collision_state;
 
         //double kx, ky, ka;
         double density; //in doc rho_b/rho_0
diff --git a/libvvhd/headers/TSpace.hpp b/libvvhd/headers/TSpace.hpp
index bdd3bb1..fc70565 100644
--- a/libvvhd/headers/TSpace.hpp
+++ b/libvvhd/headers/TSpace.hpp
@@ -58,6 +58,9 @@ class Space
     public:
         void calc_forces();
         void zero_forces(); //zero all att-> Cp, Fr, Nu, gsum, fric, hsum variables.
+        // the collision detected by the last step, as expected by MConvectiveFast::calc_circulation()
+        const void* get_collision() const;
+        void set_collision(const void* collision);
 
         void finish_step() {
             time = TTime::add(time, dt);
diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 7ad8f9c..6b2d3bb 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -23,6 +23,7 @@ TBody::TBody():
     collision_min(NaN, NaN, NaN),
     collision_max(NaN, NaN, NaN),
     bounce(),
+    collision_state(),
 
     density(1.0),
     special_segment_no(0),
@@ -74,6 +75,7 @@ TBody& TBody::operator= (const TBody& copy)
     collision_min = copy.collision_min;
     collision_max = copy.collision_max;
     bounce = copy.bounce;
+    collision_state = copy.collision_state;
     density = copy.density;
     special_segment_no = copy.special_segment_no;
     boundary_condition = copy.boundary_condition;
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 39db52e..79f72f5 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -203,6 +203,30 @@ void Space::EnumerateBodies()
     }
 }
 
+const void* Space::get_collision() const
+{
+    for (auto& lbody: BodyList)
+    {
+        switch (lbody->collision_state) {
+        case 1: return &lbody->kspring.r.x;
+        case 2: return &lbody->kspring.r.y;
+        case 3: return &lbody->kspring.o;
+        }
+    }
+    return nullptr;
+}
+
+void Space::set_collision(const void* collision)
+{
+    for (auto& lbody: BodyList)
+    {
+        lbody->collision_state =
+            collision == &lbody->kspring.r.x ? 1 :
+            collision == &lbody->kspring.r.y ? 2 :
+            collision == &lbody->kspring.o ? 3 : 0;
+    }
+}
+
 /********************************* INTEGRALS **********************************/
 
 int Space::get_body_index(const TBody* body) const
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index dc352c6..da083a6 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -114,6 +114,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     body.collision_min = h5a_read<TVec3D> (h5d, "collision_min");
     body.collision_max = h5a_read<TVec3D> (h5d, "collision_max");
     body.bounce = h5a_read<double> (h5d, "bounce");
+    body.collision_state = h5a_read<uint32_t> (h5d, "collision_state");
 
     std::string root_name = h5a_read<std::string> (h5d, "root_body");
     if (root_name.empty()) {
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index ed889e7..905a947 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -196,6 +196,8 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<TVec3D> (h5d, "collision_min", body.collision_min);
     h5a_write<TVec3D> (h5d, "collision_max", body.collision_max);
     h5a_write<double> (h5d, "bounce", body.bounce);
+    if (body.collision_state)
+        h5a_write<uint32_t> (h5d, "collision_state", body.collision_state);
 
     h5a_write<double> (h5d, "area", body.get_area());
     h5a_write<TVec> (h5d, "cofm", body.get_cofm());
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index fdaa874..750952e 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -249,7 +249,7 @@ int simulate (lua_State *L) {
         break;
     }
 
-    const void* collision = nullptr;
+    const void* collision = S.get_collision();
     while (S.time < S.finish + S.dt/2)
     {
         VVMON("begin");
@@ -307,6 +307,7 @@ int simulate (lua_State *L) {
         dbg(tr.destroy());
 
         dbg(flowmove.move_and_clean(true, &collision));
+        S.set_collision(collision);
         VVMON("move");
             #ifdef OVERRIDEMOI
                     S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
-- 
2.43.0


From 211c68313fd689462329358ef6edceb9d01f327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 44/78] fix: vvxtract --info went on to print datasets of a
 step log

---
 utils/vvxtract/vvxtract.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 4056c78..8fd4702 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -161,6 +161,10 @@ int main(int argc, char **argv)
         return 0;
     }
 
+    if (opt::b_info) {
+        return 0;
+    }
+
     std::vector<dataset_t> datasets;
     size_t max_rows = 0;
     for (int i=1; i<opt::argc; i++) {
-- 
2.43.0


From 6a3230ecf5ce196cd240e243088191e38c751bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 45/78] fix: vvawk scripts honour a range limit of 0 and run on
 awks without infinite literals

---
 utils/scripts/vvawk.ampl  | 6 ++----
 utils/scripts/vvawk.avg   | 4 +---
 utils/scripts/vvawk.sd    | 4 +---
 utils/scripts/vvawk.zeros | 4 +---
 4 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 8052370..0872f92 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -11,8 +11,6 @@ BEGIN{
     }
     col =  col ? col+0 : 2
     span = span ? span+0. : 5
-    xmin = xmin ? xmin+0. : -1e400
-    xmax = xmax ? xmax+0. : +1e400
     smax = smin = 0
     nmax = nmin = 0
 }
@@ -33,9 +31,9 @@ BEGIN{
     xc = x[c]
 
     # если абсцисса не попала в нужный диапазон - пропускаем
-    if(xc<xmin)
+    if(xmin != "" && xc < xmin+0)
         next;
-    if(xc>xmax)
+    if(xmax != "" && xc > xmax+0)
         exit;
 
     # проверяем экстремум
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 8adaa8b..6fa36bc 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -11,12 +11,10 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
 }
 
 {
-	if($1>xmin && $1<xmax) {
+	if((xmin == "" || $1 > xmin+0) && (xmax == "" || $1 < xmax+0)) {
 		sum+= $col;
 		n++;
 	}
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index a57418f..d58625e 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -12,12 +12,10 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
 }
 
 {
-	if($1>xmin && $1<xmax) {
+	if((xmin == "" || $1 > xmin+0) && (xmax == "" || $1 < xmax+0)) {
 		sum+= $col;
 		sum2+= $col**2;
 		n++;
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 62cd12a..e806b9d 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -9,8 +9,6 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
 	yprev = 0
 }
 
@@ -22,7 +20,7 @@ function abs(v) {
 	xcurr = $1
 	ycurr = $col
 
-	if (xcurr>xmin && xcurr<xmax) {
+	if ((xmin == "" || xcurr > xmin+0) && (xmax == "" || xcurr < xmax+0)) {
 		if (yprev < 0 && ycurr > 0 ||
 			yprev > 0 && ycurr < 0) {
 			z = xcurr*abs(yprev) + xprev*abs(ycurr)
-- 
2.43.0


From 5cdf9f70a502bc93863c303185178becfb2b0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 46/78] fix: vvawk.ampl looks at the middle of an odd window
 (the default one)

---
 utils/scripts/vvawk.ampl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 0872f92..7056f27 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -26,7 +26,7 @@ BEGIN{
         next;
 
     # берём точку по центру окна
-    c = (NR-span/2)%span
+    c = (NR-int(span/2))%span
     yc = y[c]
     xc = x[c]
 
-- 
2.43.0


From 770b067b970b35bc842359925d6b9758578f9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 47/78] fix: vvawk.sd of equal values is 0, not the root of a
 rounding error; use portable power operator

---
 utils/scripts/vvawk.sd | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index d58625e..789a3db 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -17,12 +17,13 @@ BEGIN{
 {
 	if((xmin == "" || $1 > xmin+0) && (xmax == "" || $1 < xmax+0)) {
 		sum+= $col;
-		sum2+= $col**2;
+		sum2+= $col^2;
 		n++;
 	}
 }
 
 END {
 	nn = (n>0) ? 1.0/n : 0
-	printf "%.6e\n", sqrt(sum2*nn-(sum*nn)^2)
+	d = sum2*nn-(sum*nn)^2
+	printf "%.6e\n", (d>0) ? sqrt(d) : 0
 }
-- 
2.43.0


From 7c618c7a913a052eaf8f162487f3f1dca992f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 48/78] fix: vvawk scripts skip the header line that vvxtract
 prints instead of counting it as zeros

---
 utils/scripts/vvawk.ampl  | 8 +++++---
 utils/scripts/vvawk.avg   | 2 ++
 utils/scripts/vvawk.drv   | 4 +++-
 utils/scripts/vvawk.mavg  | 6 ++++--
 utils/scripts/vvawk.sd    | 2 ++
 utils/scripts/vvawk.zeros | 2 ++
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 7056f27..168dc37 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -15,18 +15,20 @@ BEGIN{
     nmax = nmin = 0
 }
 
+/^#/ || !NF { next }
+
 {
     # круговой буффер
-    mod = NR%span
+    mod = ++n%span
     y[mod] = $col
     x[mod] = $1
 
     # пока буффер не наполнился - наполняем
-    if(NR<span)
+    if(n<span)
         next;
 
     # берём точку по центру окна
-    c = (NR-int(span/2))%span
+    c = (n-int(span/2))%span
     yc = y[c]
     xc = x[c]
 
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 6fa36bc..b248e2e 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -13,6 +13,8 @@ BEGIN{
 	col =  col ? col+0 : 2
 }
 
+/^#/ || !NF { next }
+
 {
 	if((xmin == "" || $1 > xmin+0) && (xmax == "" || $1 < xmax+0)) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.drv b/utils/scripts/vvawk.drv
index 47aba93..a8e0c1b 100755
--- a/utils/scripts/vvawk.drv
+++ b/utils/scripts/vvawk.drv
@@ -12,9 +12,11 @@ BEGIN{
     div = div ? div+0. : 1
 }
 
+/^#/ || !NF { print; next }
+
 {
     ycurr = $col
-    if (NR == 1) {
+    if (++n == 1) {
         yprev = ycurr
         next
     }
diff --git a/utils/scripts/vvawk.mavg b/utils/scripts/vvawk.mavg
index 6de8e8a..0515f1b 100755
--- a/utils/scripts/vvawk.mavg
+++ b/utils/scripts/vvawk.mavg
@@ -13,10 +13,12 @@ BEGIN{
     span = span ? span+0 : 20
 }
 
+/^#/ || !NF { print; next }
+
 {
     # circular index
-    mod = NR % span
-    if (NR<=span) count++
+    mod = ++n % span
+    if (n<=span) count++
     else sum -= array[mod]
     sum+= $col
     array[mod]=$col
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 789a3db..4ca78e7 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -14,6 +14,8 @@ BEGIN{
 	col =  col ? col+0 : 2
 }
 
+/^#/ || !NF { next }
+
 {
 	if((xmin == "" || $1 > xmin+0) && (xmax == "" || $1 < xmax+0)) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index e806b9d..5b7591d 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -16,6 +16,8 @@ function abs(v) {
 	return v < 0 ? -v : v
 }
 
+/^#/ || !NF { next }
+
 {
 	xcurr = $1
 	ycurr = $col
-- 
2.43.0


From 2ab8b84a09bc30fb54d012ba096dae1a5e5d4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 49/78] fix: the velocity plot includes the surface vortices of
 the current step, like pressure, vorticity and sensors

---
 libvvhd/src/XVelocity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..e46177e 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -1,4 +1,5 @@
 #include "XVelocity.hpp"
+#include "MFlowmove.hpp"
 
 #include <cmath>
 #include <limits>
@@ -47,6 +48,8 @@ void XVelocity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    MFlowmove flowmove(&S);
+    flowmove.vortex_shed();
     tree.build();
     eps.CalcEpsilonFast(false);
 
-- 
2.43.0


From 725571692633999171e4a163c1dce5c0920feb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 50/78] fix: streamlines around a moving body that is not
 star-shaped do not jump by the flux its surface pushes

---
 libvvhd/src/XStreamfunction.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..19ebba4 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -36,12 +36,24 @@ double _2pi_psi_q(TVec dr, double q)
     return q * atan2(dr.y, dr.x);
 }
 
+// Streamfunction of the sources on the surface of a moving body. Each of them
+// has a branch cut along the contour up to its last segment, where all the
+// flux has come back, so that cuts never cross the flow around the body.
 inline static
-double _2pi_psi_qatt(TVec p, TVec att, TVec cofm, double q)
+double _2pi_psi_qbody(TVec p, const TBody& body)
 {
-    TVec v1 = cofm-p;
-    TVec v2 = att-p;
-    return -q * atan2(rotl(v2)*v1, v2*v1);
+    double psi = 0.0;
+    double q = 0.0;
+    TVec v1 = p - body.alist.back().r;
+    for (const TAtt& latt: body.alist)
+    {
+        TVec v2 = p - latt.r;
+        psi -= q * atan2(rotl(v1)*v2, v1*v2);
+        TVec Vs = body.speed_slae.r + body.speed_slae.o * rotl(latt.r - body.get_axis());
+        q -= rotl(Vs) * latt.dl;
+        v1 = v2;
+    }
+    return psi;
 }
 
 void XStreamfunction::evaluate()
@@ -139,10 +151,9 @@ double XStreamfunction::streamfunction(const Space &S, TVec p)
         {
             TVec Vs = lbody->speed_slae.r + lbody->speed_slae.o * rotl(latt.r - lbody->get_axis());
             double g = -Vs * latt.dl;
-            double q = -rotl(Vs) * latt.dl;
             tmp_4pi_psi_g += _4pi_psi_g(p-latt.r, rd2, g);
-            tmp_2pi_psi_q += _2pi_psi_qatt(p, latt.r, lbody->get_cofm(), q);
         }
+        tmp_2pi_psi_q += _2pi_psi_qbody(p, *lbody);
     }
 
     for (const TObj& src: S.SourceList)
@@ -177,10 +188,9 @@ double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double*
         {
             TVec Vs = lbody->speed_slae.r + lbody->speed_slae.o * rotl(latt.r - lbody->get_axis());
             double g = -Vs * latt.dl;
-            double q = -rotl(Vs) * latt.dl;
             tmp_4pi_psi_g += _4pi_psi_g(p-latt.r, rd2, g);
-            tmp_2pi_psi_q += _2pi_psi_qatt(p, latt.r, lbody->get_cofm(), q);
         }
+        tmp_2pi_psi_q += _2pi_psi_qbody(p, *lbody);
     }
 
     for (const auto& src: S.SourceList)
-- 
2.43.0


From faf5a992e44bfa0e9fa071cef2fcdb5678b06d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 51/78] fix: vvplot -S draws a snapshot where nothing flows
 without streamlines instead of refusing it

---
 utils/vvplot/vvplot.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bfcba3a..5e83df8 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -376,7 +376,9 @@ int main_hdf(int argc, char **argv)
         }
 
         std::stringstream bin_streamline;
-        bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
+        // there are no streamlines where nothing flows
+        if (opt::Sstep > 0)
+            bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
         gp.add("streamlines", bin_streamline.str());
 
         plot_cmd << DELIMITER;
@@ -560,7 +562,9 @@ int main_tar(int argc, char **argv)
         }
 
         std::stringstream bin_streamline;
-        bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
+        // there are no streamlines where nothing flows
+        if (opt::Sstep > 0)
+            bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
         gp.add("streamlines", bin_streamline.str());
     }
 
-- 
2.43.0


From 99e367e62920e0787080a81f9c245e66380269d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 52/78] fix: vvplot crashed replotting an archive with a field
 that does not fit on the stack

---
 utils/vvplot/gnuplotter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index cc307ea..2203360 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -74,9 +74,9 @@ void Gnuplotter::load(const std::string& filename)
 
         std::string pathname = archive_entry_pathname(entry);
         size_t esize = archive_entry_size(entry);
-        char buf[esize];
+        std::string buf(esize, '\0');
 
-        size_t rsize = archive_read_data(a, buf, esize);
+        ssize_t rsize = archive_read_data(a, &buf[0], esize);
         if (rsize < 0) {
             std::string err = "Error reading '" + filename + "' (" + pathname + "): ";
             err += archive_error_string(a);
@@ -84,9 +84,9 @@ void Gnuplotter::load(const std::string& filename)
         }
 
         if (pathname == "plot.gp") {
-            script.write(buf, rsize);
+            script.write(buf.data(), rsize);
         } else {
-            files[pathname] = std::string(buf, rsize);
+            files[pathname] = buf.substr(0, rsize);
         }
     }
 
-- 
2.43.0


From 7e31870b6189115570cabdef86ca7e3f34627113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 53/78] fix: vvplot reports an archive that could not be
 written instead of exiting with 0

---
 utils/vvplot/gnuplotter.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 2203360..22cbd06 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -13,7 +13,7 @@ Gnuplotter::Gnuplotter():
     files()
 {}
 
-static void archive(
+static bool archive(
     struct archive *a,
     const std::string& name,
     const std::string& data,
@@ -24,9 +24,10 @@ static void archive(
     archive_entry_set_size(e, data.size());
     archive_entry_set_filetype(e, AE_IFREG);
     archive_entry_set_perm(e, perm);
-    archive_write_header(a, e);
-    archive_write_data(a, data.c_str(), data.size());
+    bool ok = archive_write_header(a, e) >= ARCHIVE_WARN
+        && archive_write_data(a, data.c_str(), data.size()) == ssize_t(data.size());
     archive_entry_free(e);
+    return ok;
 }
 
 void Gnuplotter::save(const std::string& filename)
@@ -34,15 +35,23 @@ void Gnuplotter::save(const std::string& filename)
     struct archive *a = archive_write_new();
 
     archive_write_set_format_pax_restricted(a);
-    archive_write_open_filename(a, filename.c_str());
+    bool ok = archive_write_open_filename(a, filename.c_str()) == ARCHIVE_OK;
 
-    archive(a, "plot.gp", script.str(), 0755);
+    ok = ok && archive(a, "plot.gp", script.str(), 0755);
     for (auto& f: files) {
-        archive(a, f.first, f.second);
+        ok = ok && archive(a, f.first, f.second);
     }
 
-    archive_write_close(a);
+    ok = ok && archive_write_close(a) == ARCHIVE_OK;
+
+    std::string err;
+    if (!ok) {
+        const char* reason = archive_error_string(a);
+        err = "Error writing '" + filename + "': " + (reason ? reason : "unknown error");
+    }
     archive_write_free(a);
+    if (!ok)
+        throw std::runtime_error(err);
 }
 
 void Gnuplotter::load(const std::string& filename)
-- 
2.43.0


From 1a0fef0a6b659ad5b5d75598c1f5a1699247b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 54/78] fix: vvplot drew bodies with equal labels (or one named
 like a plotted list) by the same contour and broke on a quote in a label

---
 utils/vvplot/vvplot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 5e83df8..1246f13 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -390,9 +390,12 @@ int main_hdf(int argc, char **argv)
     for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
         const TBody& b = *lbody;
         std::string blabel = b.label;
-        if (blabel.empty()){
+        if (blabel.empty() || blabel.find('\'') != std::string::npos || gp.get(blabel)) {
             blabel = S.get_body_name(&b);
         }
+        while (gp.get(blabel)) {
+            blabel += "_";
+        }
 
         if (opt::B) {
             plot_cmd << DELIMITER;
-- 
2.43.0


From 8e88a4d64e2ebf80afb318380b2fcf934c480d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 55/78] fix: vvplot failed on velocity ranges that do not
 include zero and on fields that are constant

---
 utils/vvplot/vvplot.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 1246f13..5595413 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -196,6 +196,8 @@ int main_hdf(int argc, char **argv)
             float pmin = vrt.percentile(0.02);
             float pmax = vrt.percentile(0.98);
             opt::Gmax = std::max(-pmin, pmax);
+            // gnuplot refuses an empty range
+            if (opt::Gmax == 0) opt::Gmax = 1;
         }
         gp << strfmt( "set cbrange [%lg:%lg]\n", -opt::Gmax, opt::Gmax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", -opt::Gmax);
@@ -290,13 +292,20 @@ int main_hdf(int argc, char **argv)
 
         if (!std::isfinite(opt::Umin)) opt::Umin = field->min();
         if (!std::isfinite(opt::Umax)) opt::Umax = field->max();
+        // gnuplot refuses an empty range
+        if (opt::Umax - opt::Umin <= 1e-4*std::max(std::fabs(opt::Umin), std::fabs(opt::Umax))) {
+            opt::Umin -= 1;
+            opt::Umax += 1;
+        }
 
+        // green is for zero velocity, unless it is out of the range
+        double Uzero = (opt::Umin < 0 && opt::Umax > 0) ? 0 : (opt::Umin + opt::Umax)/2;
         gp << "set palette defined (" <<
-            opt::Umin/1 << " \"#0829d5\", " <<
-            opt::Umin/3 << " \"#1ffcff\", " <<
-                    0.0 << " \"#2ef62e\", " <<
-            opt::Umax/3 << " \"yellow\", " <<
-            opt::Umax/1 << " \"red\"" <<
+            opt::Umin << " \"#0829d5\", " <<
+            Uzero + (opt::Umin - Uzero)/3 << " \"#1ffcff\", " <<
+            Uzero << " \"#2ef62e\", " <<
+            Uzero + (opt::Umax - Uzero)/3 << " \"yellow\", " <<
+            opt::Umax << " \"red\"" <<
         ")" << std::endl;
 
         gp << strfmt( "set cbrange [%lg:%lg]\n", opt::Umin, opt::Umax);
-- 
2.43.0


From 1889497a28f47b5e2c3e94ee0fe229c7f9167766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 56/78] fix: fractions with an out-of-range numerator like
 '4294967297/1' were silently wrapped and a list index of -2^63 overflowed

---
 utils/vvflow/getset.cpp       | 9 ++++++++-
 utils/vvflow/lua_bodylist.cpp | 6 +++---
 utils/vvflow/lua_objlist.cpp  | 6 +++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index f95232c..0e60a35 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -108,7 +108,9 @@ int luavvd_setTTime(lua_State *L) {
         bool fail = false;
         int  slen = 0;
 
-        fail = sscanf(s, "%d/%u %n", &nt.value, &nt.timescale, &slen) < 2;
+        long long value;
+
+        fail = sscanf(s, "%lld/%u %n", &value, &nt.timescale, &slen) < 2;
         fail = fail || s[slen]!='\0';
         if (fail) {
             lua_pushfstring(L, "TTime can not parse '%s'", s);
@@ -117,6 +119,11 @@ int luavvd_setTTime(lua_State *L) {
             lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
             return 1;
         }
+        nt.value = value;
+        if (nt.value != value) {
+            lua_pushfstring(L, "TTime can not represent '%s'", s);
+            return 1;
+        }
         *t = nt;
         return 0;
     }
diff --git a/utils/vvflow/lua_bodylist.cpp b/utils/vvflow/lua_bodylist.cpp
index 548128d..6d2a527 100644
--- a/utils/vvflow/lua_bodylist.cpp
+++ b/utils/vvflow/lua_bodylist.cpp
@@ -63,9 +63,9 @@ static int bodylist_getindex(lua_State *L) {
     vector<shared_ptr<TBody>>* li = checkBodyList(L, 1);
 
     if (lua_isnumber(L, 2)) {
-        lua_Integer idx = lua_tointeger(L, 2)-1;
-        if (idx >= 0 && idx < li->size()) {
-            pushTBody(L, li->at(idx));
+        lua_Integer idx = lua_tointeger(L, 2);
+        if (idx >= 1 && idx <= li->size()) {
+            pushTBody(L, li->at(idx-1));
             return 1;
         }
     } else if (lua_isstring(L, 2)) {
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index d20fc71..c4b0370 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -97,9 +97,9 @@ static int objlist_getindex(lua_State *L) {
     vector<TObj>* li = checkObjList(L, 1);
 
     if (lua_isnumber(L, 2)) {
-        lua_Integer idx = lua_tointeger(L, 2)-1;
-        if (idx >= 0 && idx < li->size()) {
-            lua_pushTObj(L, &li->at(idx));
+        lua_Integer idx = lua_tointeger(L, 2);
+        if (idx >= 1 && idx <= li->size()) {
+            lua_pushTObj(L, &li->at(idx-1));
             return 1;
         }
     } else if (lua_isstring(L, 2)) {
-- 
2.43.0


From 3bbc208c0825a41e0e1e98254adf0bcd51c83727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 57/78] fix: a script's reference to a member of a body was
 left dangling when the body itself was collected

---
 utils/vvflow/getset.cpp     | 10 ++++++++++
 utils/vvflow/getset.h       |  6 ++++++
 utils/vvflow/lua_tbody.cpp  |  2 ++
 utils/vvflow/lua_tvec3d.cpp |  1 +
 4 files changed, 19 insertions(+)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 0e60a35..cfe8c6e 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -3,6 +3,16 @@
 
 #include <lua.hpp>
 
+void luavvd_setowner(lua_State *L, int owner_idx) {
+    if (lua_type(L, -1) != LUA_TUSERDATA)
+        return;
+    owner_idx = lua_absindex(L, owner_idx);
+    lua_newtable(L);
+    lua_pushvalue(L, owner_idx);
+    lua_rawseti(L, -2, 1);
+    lua_setuservalue(L, -2);
+}
+
 int luavvd_setdouble(lua_State *L) {
     double* dbl = (double*)lua_touserdata(L, 1);
     
diff --git a/utils/vvflow/getset.h b/utils/vvflow/getset.h
index 914aa30..9c9fb7f 100644
--- a/utils/vvflow/getset.h
+++ b/utils/vvflow/getset.h
@@ -34,6 +34,12 @@ int luavvd_getTEval(lua_State *L);  // lua_newuserdata(TEval*, "TEval")
 int luavvd_getObjList(lua_State *L); // lua_newuserdata(std::vector<TObj>*, "ObjList")
 int luavvd_getBodyList(lua_State *L); // lua_newuserdata(std::vector<shared_ptr<TBody>>*, "BodyList")
 
+/* a reference to a member keeps its owner alive
+pop
+    none: the reference stays on top of the stack
+*/
+void luavvd_setowner(lua_State *L, int owner_idx);
+
 struct luavvd_member {
     const char *name;
     lua_CFunction getter;
diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 4e949bc..bab45ba 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -146,6 +146,7 @@ static int tbody_totable(lua_State *L) {
     lua_newtable(L);
     for (int i=0; i<body->alist.size(); i++) {
         lua_pushTVec(L, &body->alist[i].corner);
+        luavvd_setowner(L, 1);
         lua_rawseti(L, -2, i+1);
     }
     return 1;
@@ -261,6 +262,7 @@ static int tbody_getindex(lua_State *L) {
         PUSH_MEMBER();
         body.reset();
         lua_call(L, 1, 1);
+        luavvd_setowner(L, 1);
         return 1;
     }
 
diff --git a/utils/vvflow/lua_tvec3d.cpp b/utils/vvflow/lua_tvec3d.cpp
index 033ffdd..148c415 100644
--- a/utils/vvflow/lua_tvec3d.cpp
+++ b/utils/vvflow/lua_tvec3d.cpp
@@ -88,6 +88,7 @@ static int tvec3d_getindex(lua_State *L) {
         lua_pushcfunction(L, f->getter);
         lua_pushlightuserdata(L, (char*)vec + f->offset);
         lua_call(L, 1, 1);
+        luavvd_setowner(L, 1);
         return 1;
     }
 
-- 
2.43.0


From aa9b50d9c027262ff2175e7090f20d11e4980973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 58/78] fix: a failed or interrupted save left an incomplete
 snapshot that could be loaded, or destroyed the one it replaced

---
 libvvhd/src/TSpace.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 79f72f5..5dc35e4 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -5,8 +5,13 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <limits>
+#include <sys/stat.h>
+#include <unistd.h>
 using std::fstream;
 using std::ios;
 static const double d_inf = std::numeric_limits<double>::infinity();;
@@ -69,16 +74,30 @@ void Space::save(const char* fname)
         lbody->validate(/*critical=*/true);
     }
 
+    // the file appears under its name only when it is complete
+    struct stat st;
+    const bool replace = lstat(fname, &st) != 0 || S_ISREG(st.st_mode);
+    const std::string tmp = std::string(fname) + (replace ? ".tmp" : "");
+
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fid = H5Fcreate(tmp.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
-    save_hdf(fid);
+    try {
+        save_hdf(fid);
 
-    herr_t err = H5Fclose(fid);
-    if (err < 0)
-        h5_throw("H5Fclose", fname);
+        herr_t err = H5Fclose(fid);
+        if (err < 0)
+            h5_throw("H5Fclose", fname);
+
+        if (replace && rename(tmp.c_str(), fname) != 0)
+            throw std::runtime_error(std::string("can not save '") + fname + "' (" + strerror(errno) + ")");
+    } catch (...) {
+        if (replace)
+            unlink(tmp.c_str());
+        throw;
+    }
 }
 
 FILE* Space::open_file(const char* format)
-- 
2.43.0


From 92704c31edf8629764de6532f65fbbd2fe437137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 59/78] fix: errors of writing the step log were ignored, and
 its rows before a snapshot could be lost with a killed run

---
 libvvhd/src/MStepdata.cpp | 12 +++++++-----
 utils/vvflow/vvflow.cpp   |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index 1202504..71c6223 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -148,7 +148,12 @@ Stepdata::~Stepdata()
 
 void Stepdata::flush()
 {
-    last_flush_time = 0;
+    if (H5Fflush(h5f, H5F_SCOPE_GLOBAL) < 0)
+        h5_throw("H5Fflush", "stepdata");
+
+    struct timespec clk;
+    clock_gettime(CLOCK_MONOTONIC, &clk);
+    last_flush_time = clk.tv_sec;
 }
 
 void Stepdata::write()
@@ -186,10 +191,7 @@ void Stepdata::write()
     struct timespec clk;
     clock_gettime(CLOCK_MONOTONIC, &clk);
     if (clk.tv_sec - last_flush_time > 20)
-    {
-        H5Fflush(h5f, H5F_SCOPE_GLOBAL);
-        last_flush_time = clk.tv_sec;
-    }
+        flush();
 }
 
 /*****************************************************************************/
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 750952e..1bfb0fe 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -275,8 +275,8 @@ int simulate (lua_State *L) {
         {
             char tmp_filename[256];
             snprintf(tmp_filename, 256, "%s/%06d.h5", f_results, int(S.time/S.dt+0.5));
-            S.save(tmp_filename);
             stepdata.flush();
+            S.save(tmp_filename);
             VVMON("save");
         }
 
@@ -323,5 +323,6 @@ int simulate (lua_State *L) {
     if (opt::show_progress)
         fprintf(stderr, "\n");
 
+    stepdata.flush();
     return 0;
 }
-- 
2.43.0


From 7447fa56ede6766b95a5b4cf8fd90ba55844ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 60/78] fix: vvflow crashed at exit after it failed to read or
 write a file

---
 utils/vvflow/vvflow.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 1bfb0fe..0119135 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -23,6 +23,7 @@
 
 #include <sys/stat.h>
 #include <sys/types.h>
+#include <unistd.h>
 #include <cstring>
 #include <ctime>
 
@@ -143,6 +144,13 @@ namespace opt {
     char* const* argv;
 }
 
+// exit handlers of libhdf5 crash on the files it failed to read or write
+static int quit(int code)
+{
+    fflush(NULL);
+    _exit(code);
+}
+
 int main(int argc, char* const* argv)
 {
     opt::parse(argc, argv);
@@ -176,16 +184,16 @@ int main(int argc, char* const* argv)
     }
     } catch (const std::exception& e) {
         fprintf(stderr, "%s\n", e.what());
-        return 8;
+        return quit(8);
     }
 
     if (ret) {
         fprintf(stderr, "%s\n", lua_tostring(L, -1));
         lua_pop(L, 1);
-        return 8;
+        return quit(8);
     }
 
-    return 0;
+    return quit(0);
 }
 
 int simulate (lua_State *L) {
-- 
2.43.0


From 37cb9e744a021bfe58fc9131611e2f9b5828e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 61/78] fix: a run resumed over an unreadable step log dropped
 its earlier rows at random

---
 libvvhd/src/MStepdata.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index 71c6223..0cc7131 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -66,15 +66,15 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
                 h5_throw("H5Dget_space", "time");
             hsize_t dims[2];
             H5Sget_simple_extent_dims(h5s, dims, NULL);
-            float* tbuf = new float[dims[0]*dims[1]];
-            H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf);
+            std::vector<float> tbuf(dims[0]*dims[1]);
+            if (H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf.data()) < 0)
+                h5_throw("H5Dread", "time");
             for (rows=0; rows<dims[0] && tbuf[rows*dims[1]] < float(S->time); rows++)
             {
                 /* DO NOTHING */;
             }
             H5Sclose(h5s);
             H5Dclose(h5d);
-            delete [] tbuf;
         }
     }
 
-- 
2.43.0


From a5fcf61af756c5ea20028d9e234eae63d98d03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 62/78] fix: refuse an HDF5 attribute that is not a single
 element (it was read over the stack)

---
 libvvhd/src/vvhdf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libvvhd/src/vvhdf.cpp b/libvvhd/src/vvhdf.cpp
index 8796dc8..287f03f 100644
--- a/libvvhd/src/vvhdf.cpp
+++ b/libvvhd/src/vvhdf.cpp
@@ -32,6 +32,14 @@ T h5a_read(hid_t hid, const char* name) {
     if (aid < 0)
         h5_throw("H5Aopen", name);
 
+    hid_t h5s = H5Aget_space(aid);
+    hssize_t npoints = H5Sget_simple_extent_npoints(h5s);
+    H5Sclose(h5s);
+    if (npoints != 1) {
+        H5Aclose(aid);
+        throw std::runtime_error(std::string("attribute ") + name + " must have exactly one element");
+    }
+
     T ret = T();
     herr_t err = H5Aread(aid, h5t<T>::id, &ret);
     if (err < 0)
-- 
2.43.0


From 0f3cc232260ad4653ed29eaf2a10162af4a4beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 63/78] fix: check the shape of the datasets of a snapshot
 before reading them

---
 libvvhd/src/TSpace_load_hdf.cpp | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index da083a6..9c4a7bf 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -14,6 +14,14 @@ struct body_name_less {
 };
 typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
+static void dataset_get_dims(hid_t h5s, std::string name, hsize_t cols, hsize_t dims[2])
+{
+    if (H5Sget_simple_extent_ndims(h5s) != 2 ||
+        H5Sget_simple_extent_dims(h5s, dims, NULL) < 0 ||
+        dims[1] != cols)
+        throw std::runtime_error("dataset " + name + " must have " + std::to_string(cols) + " columns");
+}
+
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
     if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
@@ -28,7 +36,7 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
         h5_throw("H5Dget_space", name);
 
     hsize_t dims1[2];
-    H5Sget_simple_extent_dims(h5s_file, dims1, dims1);
+    dataset_get_dims(h5s_file, name, 3, dims1);
 
     hsize_t dims2[2] = {dims1[0]*2, dims1[1]};
     hid_t h5s_mem = H5Screate_simple(2, dims2, dims2);
@@ -89,8 +97,10 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
     hsize_t dims[2];
-    H5Sget_simple_extent_dims(h5s_file, dims, dims);
+    dataset_get_dims(h5s_file, name, 4, dims);
     hsize_t N = dims[0];
+    if (!N)
+        throw std::runtime_error("dataset " + name + " is empty");
 
     body. label = h5a_read<std::string> (h5d, "label");
     body.holder = h5a_read<TVec3D> (h5d, "holder_position");
@@ -126,9 +136,9 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         body.root_body = body_map[root_name];
     }
 
-    double att_array[N][4] = {0};
-    uint32_t slip_array[N] = {0};
-    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    std::vector<double> att_array(N*4);
+    std::vector<uint32_t> slip_array(N);
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dread", name);
 
@@ -170,7 +180,11 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
             hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array);
+            hid_t h5s = H5Aget_space(aid);
+            hssize_t npoints = H5Sget_simple_extent_npoints(h5s);
+            H5Sclose(h5s);
+            if (npoints != hssize_t(N) || H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data()) < 0)
+                h5_throw("H5Aread", "slip");
             H5Aclose(aid);
         }
         else
@@ -187,10 +201,11 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 
     for(hsize_t i=0; i<N; i++)
     {
-        body.alist.emplace_back(att_array[i][0], att_array[i][1]);
+        const double* att = &att_array[i*4];
+        body.alist.emplace_back(att[0], att[1]);
         TAtt& latt = body.alist.back();
-        latt.g = att_array[i][2];
-        latt.gsum = att_array[i][3];
+        latt.g = att[2];
+        latt.gsum = att[3];
         latt.slip = slip_array[i];
         latt.heat_const = heat_const;
     }
@@ -206,7 +221,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void *op_data)
 {
     body_map_t& body_map = *(body_map_t*)op_data;
-    if (std::string(name, 4) == "body") {
+    if (std::string(name).compare(0, 4, "body") == 0) {
         body_map[name] = std::make_shared<TBody>();
     }
     return 0;
-- 
2.43.0


From 62a2f5fde52e59c4381e23a1a3c90dcf6d205601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 64/78] fix: vvxtract reports a malformed file instead of
 aborting

---
 utils/vvxtract/vvxtract.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 8fd4702..6b8421b 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -41,10 +41,8 @@ namespace opt {
     char* const* argv;
 }
 
-int main(int argc, char **argv)
+static int run(char **argv)
 {
-    opt::parse(argc, argv);
-
     H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
     hid_t fid = H5Fopen(opt::input, H5F_ACC_RDONLY, H5P_DEFAULT);
     if (fid < 0)
@@ -244,3 +242,15 @@ int main(int argc, char **argv)
 
     return 0;
 }
+
+int main(int argc, char **argv)
+{
+    opt::parse(argc, argv);
+
+    try {
+        return run(argv);
+    } catch (const std::exception& e) {
+        fprintf(stderr, "%s: %s: %s\n", argv[0], opt::input, e.what());
+        return 2;
+    }
+}
-- 
2.43.0


From e6cedf538519702e0f7d97fddc0648324ebe3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 65/78] fix: stop dividing tree nodes whose content can not be
 told apart (endless recursion, int overflow)

---
 libvvhd/headers/TSortedTree.hpp | 3 ++-
 libvvhd/src/TSortedTree.cpp     | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/libvvhd/headers/TSortedTree.hpp b/libvvhd/headers/TSortedTree.hpp
index a54c6c1..29351fb 100644
--- a/libvvhd/headers/TSortedTree.hpp
+++ b/libvvhd/headers/TSortedTree.hpp
@@ -30,7 +30,8 @@ class snode
         ~snode();
 
         double x, y, h, w;
-        int i, j; //debug
+        int i;
+        unsigned j; //debug
         TObj CMp, CMm;
 
         typedef std::vector<TObj*> LList;
diff --git a/libvvhd/src/TSortedTree.cpp b/libvvhd/src/TSortedTree.cpp
index be03672..b371eb7 100644
--- a/libvvhd/src/TSortedTree.cpp
+++ b/libvvhd/src/TSortedTree.cpp
@@ -55,6 +55,14 @@ void TSortedNode::DivideNode()
             return;
         }
 
+    // non-finite or too close to be told apart
+    double c = (h<w) ? x : y;
+    if ( !(c - std::max(h,w)*0.5 < c) )
+    {
+        parent->bottomNodes.push_back(this);
+        return;
+    }
+
     //fprintf(stderr, "%d %d will split: h=%g, w=%g, x=%g, y=%g, size=%d\n", i, j, h, w, x, y, MaxListSize);
 
     // FIXME нужен свой менеджер памяти, что бы не выделять ее каждый раз заново
-- 
2.43.0


From 1a86ec8a046f5661ba0baec87e8be7c27e9ab18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 66/78] fix: check the reads, sizes and strings of the old
 snapshot format

---
 libvvhd/src/TSpace_load_v13.cpp | 47 +++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index b6f1897..d4b037e 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -1,5 +1,14 @@
 #include "TSpace.hpp"
 
+#include <cstring>
+#include <stdexcept>
+
+static void check(FILE* fin)
+{
+    if (feof(fin) || ferror(fin))
+        throw std::runtime_error("unexpected end of file");
+}
+
 static int eq(const char *str1, const char *str2)
 {
     for (int i=0; i<8; i++)
@@ -11,24 +20,30 @@ static int eq(const char *str1, const char *str2)
 
 static void LoadList(std::vector<TObj> &list, FILE* fin)
 {
-    int64_t size;
+    int64_t size = 0;
     (void)fread(&size, 8, 1, fin);
     TObj obj;
     for (int64_t i=0; i<size; i++)
     {
         fread(&obj, 24, 1, fin);
+        check(fin);
         list.push_back(obj);
     }
 }
 
 static void read_shell_script(FILE* file, TEval &script)
 {
-    int32_t len;
+    int32_t len = 0;
     fread(&len, 4, 1, file);
-    char str[len+1];
-    fread(&str, 1, len, file);
-    str[len] = 0;
-    script = str;
+    if (len < 0)
+        throw std::runtime_error("negative script length");
+    std::string str;
+    for (; len > 0; len--)
+    {
+        str.push_back(fgetc(file));
+        check(file);
+    }
+    script = str.c_str();
 }
 
 void Space::load_v13(const char* fname)
@@ -43,22 +58,24 @@ void Space::load_v13(const char* fname)
     {
         fseek(fin, i*16, SEEK_SET);
         fread(&tmp, 8, 1, fin);
+        if (feof(fin) && ftell(fin) == 0) break; // an empty file is an empty space
         fread(comment, 8, 1, fin);
+        check(fin);
         if (!tmp) continue;
         fseek(fin, tmp, SEEK_SET);
 
         if (eq(comment, "Header  ")>8)
         {
-            char version[8]; fread(&version, 8, 1, fin);
+            char version[8] = {}; fread(&version, 8, 1, fin);
             if (eq(version, "v: 1.3  ") <= 8)
             {
-                fprintf(stderr, "Cant read binary file version \"%s\".\n", version);
+                fprintf(stderr, "Cant read binary file version \"%.8s\".\n", version);
                 exit(1);
             }
 
-            char name[64];
+            char name[64] = {};
             fread(name, 1, 64, fin);
-            caption = name;
+            caption = std::string(name, strnlen(name, 64));
             fread(&time, 8, 1, fin);
             fread(&dt, 8, 1, fin);
             fread(&dt_save, 8, 1, fin);
@@ -102,10 +119,12 @@ void Space::load_v13(const char* fname)
         }
         else if (eq(comment, "Body    ")>8)
         {
+            if (BodyList.empty())
+                throw std::runtime_error("body without data");
             auto body = BodyList.back();
 
             TAtt att(0.0, 0.0);
-            int64_t size; fread(&size, 8, 1, fin);
+            int64_t size = 0; fread(&size, 8, 1, fin);
             for (int64_t i=0; i<size; i++)
             {
                 int64_t bc, hc;
@@ -116,6 +135,7 @@ void Space::load_v13(const char* fname)
                 fread(&hc, 8, 1, fin);
                 fread(&heat_const, 8, 1, fin);
                 fread(&att.gsum, 8, 1, fin);
+                check(fin);
                 att.heat_const = heat_const;
                 if (bc == 'l' || bc == 'n')
                     att.slip = bc == 'l';
@@ -143,8 +163,13 @@ void Space::load_v13(const char* fname)
             fprintf(stderr, "S->Load(): ignoring field \"%s\"\n", comment);
             exit(-1);
         }
+        check(fin);
     }
 
+    for (auto& lbody: BodyList)
+        if (lbody->alist.empty())
+            throw std::runtime_error("body without segments");
+
     EnumerateBodies();
 
     return;
-- 
2.43.0


From b3c2ad6bd810b3306a1c0684afebd2fcb4f32cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 67/78] fix: the moment of inertia of a body far from the
 origin was rounding noise

The polygon integrals were taken about (0, 0), with cancellation errors that
grow as the fourth power of the distance.
---
 libvvhd/src/TBody.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 6b2d3bb..68f485d 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -293,12 +293,20 @@ void TBody::doFillProperties()
         return;
     }
 
+    // The integrals are taken about the middle of the body, not about (0, 0),
+    // otherwise the cancellation errors grow as the fourth power of the distance
+    TVec origin = TVec(0., 0.);
+    for (auto& latt: alist) {
+        origin += latt.corner;
+    }
+    origin /= alist.size();
+
     alist.push_back(alist.front());
     for (auto latt=alist.begin(); latt<alist.end()-1; latt++)
     {
         _slip = _slip || latt->slip;
         _slen+= latt->dl.abs();
-        _area+= latt->r.y*latt->dl.x;
+        _area+= (latt->r.y - origin.y)*latt->dl.x;
 
     }
 
@@ -306,23 +314,26 @@ void TBody::doFillProperties()
         TVec _L_cofm = TVec(0., 0.);
 
         for (auto latt=alist.begin(); latt<alist.end()-1; latt++) {
-            _L_cofm += latt->r * latt->dl.abs();
+            _L_cofm += (latt->r - origin) * latt->dl.abs();
         }
 
-        _cofm = _L_cofm/_slen;
+        _cofm = origin + _L_cofm/_slen;
         _moi_cofm = 0.;
     } else {
         TVec _3S_cofm = TVec(0., 0.);
-        double _12moi_0 = 0.; // 12 * moment of inertia around point (0, 0)
+        double _12moi_0 = 0.; // 12 * moment of inertia around the origin
 
         for (auto latt=alist.begin(); latt<alist.end()-1; latt++) {
-            _3S_cofm-= latt->r * (rotl(latt->corner) * (latt+1)->corner);
-            _12moi_0 -= (latt->corner.abs2() + latt->corner*(latt+1)->corner + (latt+1)->corner.abs2())
-                *  (rotl(latt->corner) * (latt+1)->corner);
+            const TVec c1 = latt->corner - origin;
+            const TVec c2 = (latt+1)->corner - origin;
+            _3S_cofm-= (c1 + c2) * 0.5 * (rotl(c1) * c2);
+            _12moi_0 -= (c1.abs2() + c1*c2 + c2.abs2())
+                *  (rotl(c1) * c2);
         }
 
-        _cofm = _3S_cofm/(3*_area);
-        _moi_cofm = _12moi_0/12. - _area*_cofm.abs2();
+        const TVec r_cofm = _3S_cofm/(3*_area);
+        _cofm = origin + r_cofm;
+        _moi_cofm = _12moi_0/12. - _area*r_cofm.abs2();
     }
 
     alist.pop_back();
-- 
2.43.0


From 6b911fffd8b2dff353f31b4276d9d79f4a92cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 68/78] fix: streamlines bundled along the branch cuts of sinks
 to the right of the window

---
 libvvhd/src/XStreamfunction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 19ebba4..9881891 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -175,6 +175,9 @@ double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double*
     double tmp_2pi_psi_q = 0.0;
     *psi_gap = 0.0;
 
+    // branch cuts of the sources to the right of the mesh cross all of its columns
+    const bool last_column = p.x > double(xmin) + double(dxdy)*(xres-1.5);
+
     for (auto& lbody: S.BodyList)
     {
         for (auto& latt: lbody->alist)
@@ -197,7 +200,7 @@ double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double*
     {
         tmp_2pi_psi_q += _2pi_psi_q(p-src.r, src.g);
 
-        if (p.x < src.r.x && src.r.x <= p.x+dxdy &&
+        if (p.x < src.r.x && (src.r.x <= p.x+dxdy || last_column) &&
             p.y < src.r.y && src.r.y <= p.y+dxdy)
         {
             *psi_gap += src.g;
-- 
2.43.0


From d4fd8e660534c5b5e17cc9286dea0c888a0e65a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 69/78] fix: saving a body of several hundred thousand segments
 overflowed the stack

---
 libvvhd/src/MStepdata.cpp       |  8 ++++----
 libvvhd/src/TSpace_save_hdf.cpp | 19 +++++++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index 0cc7131..a1b1ef5 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -174,8 +174,8 @@ void Stepdata::write()
 
         if (b_save_profile)
         {
-            double pressure_buf[lbody->size()];
-            double friction_buf[lbody->size()];
+            std::vector<double> pressure_buf(lbody->size());
+            std::vector<double> friction_buf(lbody->size());
             for (size_t s=0; s<lbody->size(); s++)
             {
                 TAtt &latt = lbody->alist[s];
@@ -183,8 +183,8 @@ void Stepdata::write()
                 friction_buf[s] = latt.Fr/S->dt;
                 latt.Cp = latt.Fr = latt.Nu = 0;
             }
-            append(pressure_h5d[body_n], pressure_buf);
-            append(friction_h5d[body_n], friction_buf);
+            append(pressure_h5d[body_n], pressure_buf.data());
+            append(friction_h5d[body_n], friction_buf.data());
         }
     }
 
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index 905a947..3b61c38 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -6,6 +6,7 @@
 #include "vvhdf.h"
 
 #include <map>
+#include <vector>
 
 
 static void dataset_write_list(hid_t fid, std::string name, const std::vector<TObj>& list)
@@ -108,22 +109,20 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     hsize_t N = body.size();
     hsize_t dims[2] = {N, 4};
 
-    double att_array[N][4] = {0};
+    std::vector<double> att_array(4*N);
 
     uint32_t general_slip = body.alist.front().slip;
-    uint32_t slip_array[N] = {0};
+    std::vector<uint32_t> slip_array(N);
 
     float heat_const = body.alist.front().heat_const;
-    float heat_array[N] = {0};
 
     for (hsize_t i=0; i<N; i++) {
         const TAtt& att = body.alist[i];
-        att_array[i][0] = att.corner.x;
-        att_array[i][1] = att.corner.y;
-        att_array[i][2] = att.g;
-        att_array[i][3] = att.gsum;
+        att_array[4*i] = att.corner.x;
+        att_array[4*i+1] = att.corner.y;
+        att_array[4*i+2] = att.g;
+        att_array[4*i+3] = att.gsum;
         slip_array[i] = att.slip;
-        heat_array[i] = att.heat_const;
 
         can_simplify_slip &= (att.slip == general_slip);
         can_simplify_heat &= (att.heat_const == heat_const);
@@ -153,7 +152,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         if (aid < 0)
             h5_throw("H5Acreate", name);
 
-        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array);
+        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array.data());
         if (err < 0)
             h5_throw("H5Awrite", name);
 
@@ -208,7 +207,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<bc_t> (h5d, "boundary_condition", body.boundary_condition);
     h5a_write<hc_t> (h5d, "heat_condition", body.heat_condition);
 
-    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dwrite", name);
     err = H5Dclose(h5d);
-- 
2.43.0


From aef8596977e49a54b2d6dd59da3d40e3b43a2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 70/78] fix: the heat layer of a body follows its movement

It was computed once and stayed where the body was on the first step.
---
 libvvhd/src/TBody.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 68f485d..05c0c94 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -215,6 +215,8 @@ void TBody::doUpdateSegments()
         lobj->r = 0.5*((lobj+1)->corner + lobj->corner);
     }
     alist.pop_back();
+    // it is computed anew where the segments are now
+    heat_layer.clear();
 }
 
 TAtt* TBody::isPointInvalid(TVec p)
-- 
2.43.0


From 454587ccb55d5b67a48aa634ae5cbeaa03bfe842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 71/78] fix: particles in the heat layer of a body are found
 outside its bounding box too

Points beyond the bounding rectangle and circle of the body itself were
rejected, for a cylinder that is the whole layer.
---
 libvvhd/src/TBody.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 05c0c94..04b099d 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -221,6 +221,14 @@ void TBody::doUpdateSegments()
 
 TAtt* TBody::isPointInvalid(TVec p)
 {
+    if ( !isInsideValid() && (
+        p.x < _min_rect_bl.x ||
+        p.y < _min_rect_bl.y ||
+        p.x > _min_rect_tr.x ||
+        p.y > _min_rect_tr.y ||
+        (p-_cofm).abs2() > _min_disc_r2
+        )) return NULL;
+
     return isPointInContour(p, alist);
 }
 
@@ -244,13 +252,6 @@ template <class T>
 TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
 {
     bool inContour = isInsideValid();
-    if ( !inContour && (
-        p.x < _min_rect_bl.x ||
-        p.y < _min_rect_bl.y ||
-        p.x > _min_rect_tr.x ||
-        p.y > _min_rect_tr.y ||
-        (p-_cofm).abs2() > _min_disc_r2
-        )) return NULL;
 
     TAtt *nearest = NULL;
     double nearest_dr2 = std::numeric_limits<double>::max();
-- 
2.43.0


From 01e096204cd969088b761a0e759f6b262a783511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 72/78] fix: the particles of heat layers keep their place in
 the list

Segments refer to them by index. Building the tree before the boundary
condition sorted the list, and cropping it erased elements: bodies
changed the heat of a wrong particle or wrote beyond the list.
---
 libvvhd/src/MFlowmove.cpp | 20 +++++++++++++++++---
 utils/vvflow/vvflow.cpp   |  3 ++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index 9684c61..eeccab2 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -276,10 +276,24 @@ void MFlowmove::heat_shed()
 
 void MFlowmove::heat_crop(double scale)
 {
-    for (auto lobj = S->HeatList.begin(); lobj < S->HeatList.end(); )
+    std::vector<int64_t> new_no(S->HeatList.size(), -1);
+    int64_t left = 0;
+    for (size_t i=0; i<S->HeatList.size(); i++)
     {
-        if (lobj->r.x > scale) S->HeatList.erase(lobj);
-        else lobj++;
+        if (S->HeatList[i].r.x > scale) continue;
+        S->HeatList[left] = S->HeatList[i];
+        new_no[i] = left++;
+    }
+    if (left == int64_t(S->HeatList.size())) return;
+    S->HeatList.resize(left);
+
+    for (auto& lbody: S->BodyList)
+    {
+        for (auto& latt: lbody->alist)
+        {
+            if (latt.heat_layer_obj_no >= 0)
+                latt.heat_layer_obj_no = new_no[latt.heat_layer_obj_no];
+        }
     }
 }
 
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 0119135..a4ff7d1 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -263,7 +263,8 @@ int simulate (lua_State *L) {
         VVMON("begin");
         if (S.BodyList.size())
         {
-            dbg(tr.build());
+            // heat particles are referred to by their position in the list
+            dbg(tr.build(/*IncludeVortexes=*/true, /*IncludeBody=*/true, /*IncludeHeat=*/false));
             VVMON("tree1");
 
             // решаем слау
-- 
2.43.0


From 18181d02057f2ff55d2e156048209e61aa7e3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 73/78] fix: vvencode takes masks, frames and outputs with
 spaces

---
 utils/scripts/vvencode | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/scripts/vvencode b/utils/scripts/vvencode
index c1c010a..112432b 100755
--- a/utils/scripts/vvencode
+++ b/utils/scripts/vvencode
@@ -7,10 +7,10 @@ fi
 
 GLOB=$1
 OUTPUT=$2
-FIRSTFILE=$(ls $1 | head -n1)
-COMMENT="$(exiv2 -P t -bg Exif.Photo.UserComment $FIRSTFILE)"
-echo $FIRSTFILE "$COMMENT"
+FIRSTFILE=$(IFS=; ls -d $GLOB | head -n1)
+COMMENT="$(exiv2 -P t -bg Exif.Photo.UserComment "$FIRSTFILE")"
+echo "$FIRSTFILE" "$COMMENT"
 ffmpeg -pattern_type glob -i "$GLOB" \
 	-r 25 -c:v libx264 -crf 28 -pix_fmt yuv420p -bf 0 \
 	-metadata comment="$COMMENT" $3 \
-	$OUTPUT
+	"$OUTPUT"
-- 
2.43.0


From 8dd2e24b558121fa877bfd68d7986084227c283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 74/78] fix: refuse a Reynolds number that is NaN

---
 utils/vvflow/vvflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index a4ff7d1..c33ce31 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -208,7 +208,7 @@ int simulate (lua_State *L) {
 
     // error checking
     #define RAISE(STR) { return luaL_error(L, "vvflow ERROR: " STR); }
-    if (S.re <= 0) RAISE("invalid value re<=0");
+    if (!(S.re > 0)) RAISE("invalid value re<=0");
     if (!(double(S.dt) > 0)) RAISE("invalid value dt<=0");
     for (auto& lbody: S.BodyList) {
         if (!lbody->size()) RAISE("a body has no segments");
-- 
2.43.0


From 68562b9176bf106d8d6b11b23b638f5a1f941697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:59 +0000
Subject: [PATCH 75/78] fix: vvplot draws bodies with very long labels and with
 the labels of its own items

---
 utils/vvplot/gnuplotter.cpp | 2 +-
 utils/vvplot/vvplot.cpp     | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 22cbd06..39bbec0 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -118,7 +118,7 @@ void Gnuplotter::exec(const std::string& filename)
         std::string name = f.first;
         std::string content = f.second;
 
-        int memfd = syscall(SYS_memfd_create, name.c_str(), 0);
+        int memfd = syscall(SYS_memfd_create, "vvplot", 0);
         size_t ws = write(memfd, content.data(), content.size());
 
         std::string old_str = strfmt("'%s'", name.c_str());
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 5595413..b0bc813 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <vector>
 #include <limits>
+#include <set>
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -396,10 +397,15 @@ int main_hdf(int argc, char **argv)
         plot_cmd << " with lines lw 1.5 lc rgb 'black'";
     }
 
+    /* names of the items to be added after the bodies */
+    static const std::set<std::string> reserved = {
+        "plot.gp", "body_holders", "body_springs",
+        "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node",
+    };
     for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
         const TBody& b = *lbody;
         std::string blabel = b.label;
-        if (blabel.empty() || blabel.find('\'') != std::string::npos || gp.get(blabel)) {
+        if (blabel.empty() || blabel.find('\'') != std::string::npos || reserved.count(blabel) || gp.get(blabel)) {
             blabel = S.get_body_name(&b);
         }
         while (gp.get(blabel)) {
-- 
2.43.0


From 6deb76ab076ae25f9b63d5a3b4e534ae5e9cfa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:56 +0000
Subject: [PATCH 76/78] fix: the special segment of a body was lost when
 reading the old binary format

---
 libvvhd/src/TSpace_load_v13.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index d4b037e..feb6eeb 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -143,8 +143,8 @@ void Space::load_v13(const char* fname)
                     switch (bc)
                     {
                         case 's': 
-                        case 'i': body->boundary_condition = bc_t::steady; break;
-                        case 'z': body->boundary_condition = bc_t::kutta; break;
+                        case 'i': body->boundary_condition = bc_t::steady; body->special_segment_no = i; break;
+                        case 'z': body->boundary_condition = bc_t::kutta; body->special_segment_no = i; break;
                     }
                 switch (hc)
                 {
-- 
2.43.0


From 7b6af23d825bdfdd9ea5c715184c845406f0edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:02 +0000
Subject: [PATCH 77/78] fix: vvflow went on without a word when the velocities
 at the sensors could not be written

---
 utils/vvflow/sensors.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/sensors.cpp b/utils/vvflow/sensors.cpp
index 20c3b48..e0186c2 100644
--- a/utils/vvflow/sensors.cpp
+++ b/utils/vvflow/sensors.cpp
@@ -2,6 +2,10 @@
 
 // #include <cstdio>
 #include <vector>
+#include <string>
+#include <stdexcept>
+#include <cerrno>
+#include <cstring>
 
 using std::vector;
 
@@ -31,6 +35,7 @@ sensors::sensors(Space* S, MConvectiveFast *conv, const char* sensors_file, cons
 {
 	loadFile(sensors_file);
 	if (slist.size()) fout = fopen(output, "a");
+	if (slist.size() && !fout) throw std::runtime_error(std::string("can not open '") + output + "' (" + strerror(errno) + ")");
 }
 
 sensors::~sensors()
@@ -66,5 +71,6 @@ void sensors::output()
 		fprintf(fout, " \t%lg \t%lg", tmp.x, tmp.y);
 	}
 	fprintf(fout, "\n");
-	fflush(fout);
+	if (fflush(fout) || ferror(fout))
+		throw std::runtime_error(std::string("can not write velocities of sensors (") + strerror(errno) + ")");
 }
-- 
2.43.0


From 0b0c8f1e8b5f5450e36d5ab9f8dc6be2b7a2d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:02 +0000
Subject: [PATCH 78/78] fix: vvxtract ended with success when its output could
 not be written

---
 utils/vvxtract/vvxtract.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 6b8421b..3f078b8 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -248,7 +248,12 @@ int main(int argc, char **argv)
     opt::parse(argc, argv);
 
     try {
-        return run(argv);
+        int ret = run(argv);
+        if (fflush(stdout) || ferror(stdout)) {
+            perror(argv[0]);
+            return ret ? ret : 2;
+        }
+        return ret;
     } catch (const std::exception& e) {
         fprintf(stderr, "%s: %s: %s\n", argv[0], opt::input, e.what());
         return 2;
-- 
2.43.0

