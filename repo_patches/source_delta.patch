From 9e7daafe032b58a82bfa59bcc71b9c4e2125cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 01/82] fix: count polygon edges consistently at corners in the
 point-in-body test

A point exactly level with a locally lowest or highest corner crossed only one
of the two edges meeting there, so it was reported on the wrong side.
---
 libvvhd/src/TBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 0143ceb..46a10de 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -259,7 +259,7 @@ TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
                     (vi.y < vj.y) && (vi.y < p.y) && (p.y <= vj.y) &&
                     ((vj.y - vi.y) * (p.x - vi.x) > (vj.x - vi.x) * (p.y - vi.y))
             ) || (
-                (vi.y > vj.y) && (vi.y > p.y) && (p.y >= vj.y) &&
+                (vi.y > vj.y) && (vi.y >= p.y) && (p.y > vj.y) &&
                 ((vj.y - vi.y) * (p.x - vi.x) < (vj.x - vi.x) * (p.y - vi.y))
                 )) inContour = !inContour;
     }
-- 
2.43.0


From 2eed4ff60622e2a00e52da043c320f074e7f315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 02/82] fix: setting a time from a decimal number rounds
 instead of truncating

S.dt = 0.29 was stored as 28/100, because 0.29*100 is slightly less than 29.
Numbers with many digits or out of range overflowed int32.
---
 libvvhd/headers/TTime.hpp | 24 ++++++++++++++++++------
 utils/vvflow/getset.cpp   |  7 ++++++-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 4ac5d3a..b777a0a 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #include <string>
 
 class TTime
@@ -19,15 +21,25 @@ class TTime
             return TTime(int32_t(seconds*preferredTimescale), preferredTimescale);
         }
 
+        // the decimal fraction nearest to the given number, at most 9 digits after the point
         static TTime makeWithSecondsDecimal(double seconds)
         {
+            if (!(std::fabs(seconds) < 2147483647.))
+                throw std::invalid_argument("TTime is out of range");
+
+            // x*newTS must be rounded, not truncated: 0.29*100 is less than 29
             uint32_t newTS = 1;
-            while ((int32_t(seconds*newTS)/double(newTS) != seconds) && (newTS<0x19999999)/*0xffffffff/10*/)
-            { newTS*= 10; }
-            while (!(int32_t(seconds*newTS)%10) && (newTS > 1))
-            { newTS/= 10; }
-            //fprintf(stderr, "%lf sec -> %d / %u\n", seconds, int32_t(seconds*newTS), newTS);
-            return TTime(int32_t(seconds*newTS), newTS);
+            while (
+                std::round(seconds*newTS)/newTS != seconds &&
+                std::fabs(seconds)*newTS*10 < 2147483647. &&
+                newTS < 1000000000
+            ) {
+                newTS*= 10;
+            }
+            int32_t newV = std::round(seconds*newTS);
+            while (!(newV%10) && (newTS > 1))
+            { newV/= 10; newTS/= 10; }
+            return TTime(newV, newTS);
         }
 
         static TTime add(TTime time1, TTime time2)
diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index cd428aa..258beab 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -68,7 +68,12 @@ int luavvd_setTTime(lua_State *L) {
     int isnum[2];
     switch (lua_type(L, 2)) {
     case LUA_TNUMBER:
-        *t = TTime::makeWithSecondsDecimal(lua_tonumber(L, 2));
+        try {
+            *t = TTime::makeWithSecondsDecimal(lua_tonumber(L, 2));
+        } catch (const std::exception& e) {
+            lua_pushstring(L, e.what());
+            return 1;
+        }
         return 0;
     case LUA_TTABLE:
         for (size_t rawlen = lua_rawlen(L, 2); rawlen != 2; ) {
-- 
2.43.0


From 412a15441f8e2cfa80446a0c784beae7b2288187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 03/82] fix: exact sum and divisibility of times with large
 denominators

The least common multiple was cut off silently when it exceeded 2^31, and
took seconds to compute for large prime denominators.
---
 libvvhd/headers/TTime.hpp | 68 ++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index b777a0a..2e5899c 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <cstdlib>
 #include <stdexcept>
 #include <string>
 
@@ -44,11 +45,13 @@ class TTime
 
         static TTime add(TTime time1, TTime time2)
         {
-            uint32_t newTS = lcm(time1.timescale, time2.timescale);
-            return TTime(
-                    time1.value*(newTS/time1.timescale)
-                    + time2.value*(newTS/time2.timescale)
-                    , newTS);
+            TTime res;
+            if (addExact(time1, time2, &res))
+                return res;
+            if (addExact(reduce(time1), reduce(time2), &res))
+                return res;
+            // can not be represented exactly
+            return makeWithSecondsDecimal(double(time1) + double(time2));
         }
 
         bool divisibleBy(TTime divisor)
@@ -56,10 +59,9 @@ class TTime
             // divisible = кратно
             // dividend = делимое
             // divisor = делитель
-            if (!divisor.value || !divisor.timescale)
+            if (!divisor.value || !divisor.timescale || !timescale)
                 return false;
-            uint32_t lcm_ts = lcm(timescale, divisor.timescale);
-            return !((int64_t(value)*lcm_ts/timescale) % (int64_t(divisor.value)*lcm_ts/divisor.timescale));
+            return !((int64_t(value)*divisor.timescale) % (int64_t(divisor.value)*timescale));
         }
 
     public:
@@ -72,28 +74,36 @@ class TTime
         }
 
     private:
-        static uint32_t lcm(uint32_t x, uint32_t y)
+        static uint64_t gcd(uint64_t x, uint64_t y)
         {
-            if (x == y) return x;
-            if (!x || !y) return 1;
-            uint32_t result = 1;
-            uint32_t k = 2;
-            while ((x!=1) || (y!=1))
-            {
-                bool kIsPrime = true;
-                for (uint32_t d = 2; d<k/2; d++) { if (!k%d) {kIsPrime = false; break;}}
-                if (!kIsPrime) {k++; continue;}
-                int xk(x%k), yk(y%k);
-                if (!xk || !yk)
-                {
-                    if (result > (1<<31)/k) { /*overflow*/ return result; }
-                    result*=k;
-                    if (!xk) x/=k;
-                    if (!yk) y/=k;
-                    k = 2; continue;
-                }
-                k++;
+            while (y) { uint64_t r = x%y; x = y; y = r; }
+            return x ? x : 1;
+        }
+
+        static TTime reduce(TTime time)
+        {
+            const int64_t g = gcd(std::abs(int64_t(time.value)), time.timescale);
+            return TTime(time.value/g, time.timescale/g);
+        }
+
+        static bool addExact(TTime time1, TTime time2, TTime* res)
+        {
+            const uint64_t g = gcd(time1.timescale, time2.timescale);
+            const int64_t k1 = time2.timescale/g;
+            const int64_t k2 = time1.timescale/g;
+            // both products fit int64_t, but their sum may not
+            if (std::fabs(double(time1.value)*k1) + std::fabs(double(time2.value)*k2) > 9.2233720368547e18)
+                return false;
+            int64_t value = time1.value*k1 + time2.value*k2;
+            uint64_t timescale = uint64_t(time1.timescale)*k1;
+            if (value < INT32_MIN || value > INT32_MAX || timescale > UINT32_MAX) {
+                const uint64_t div = gcd(std::abs(value), timescale);
+                value/= int64_t(div);
+                timescale/= div;
             }
-            return result;
+            if (value < INT32_MIN || value > INT32_MAX || timescale > UINT32_MAX)
+                return false;
+            *res = TTime(value, timescale);
+            return true;
         }
 };
-- 
2.43.0


From b8084ded97a5d3a9ce0f675ff2f8dc027fdeefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 04/82] fix: do not throw out of an OpenMP critical section in
 TEval::eval

An expression without a numeric value at some time aborted the whole process
instead of raising an error.
---
 libvvhd/src/TEval.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index 4fe2f0d..a3ed728 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -168,6 +168,7 @@ double TEval::eval(double t) const
         return 0;
 
     double ret = 0;
+    std::string error;
 #pragma omp critical
     {
         if (t == cacheTime2) {
@@ -181,24 +182,29 @@ double TEval::eval(double t) const
 
             lua_getglobal(L, "_evaluator");
             err = lua_pcall(L, 0, 1, 0);
+            int isnum = 0;
             if (err) {
-                std::string e = lua_tostring(L, -1);
-                lua_pop(L, 1);
-                throw std::invalid_argument(e);
+                const char* e = lua_tostring(L, -1);
+                error = e ? e : "unknown error";
+            } else {
+                ret = lua_tonumberx(L, -1, &isnum);
+                if (!isnum)
+                    error = "invalid return type";
             }
-            int isnum;
-            ret = lua_tonumberx(L, -1, &isnum);
             lua_pop(L, 1);
-            if (!isnum) {
-                throw std::invalid_argument("invalid return type");
-            }
 
-            cacheTime2 = cacheTime1;
-            cacheValue2 = cacheValue1;
-            cacheTime1 = t;
-            cacheValue1 = ret;
+            if (isnum) {
+                cacheTime2 = cacheTime1;
+                cacheValue2 = cacheValue1;
+                cacheTime1 = t;
+                cacheValue1 = ret;
+            }
         }
     }
 
+    // an exception must not leave the critical section
+    if (!error.empty())
+        throw std::invalid_argument(error);
+
     return ret;
 }
-- 
2.43.0


From 0debf0a71a7b37b4aa2493fdf2d174743cd55c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 05/82] fix: do not truncate or misread long file names and
 names with a percent sign

Names longer than 63 bytes were cut off silently, so several files overwrote
each other, and a '%' in a caption or a script filename was taken for a
conversion specification.
---
 libvvhd/src/TSpace.cpp     | 19 ++++++++++++++-----
 utils/vvflow/lua_space.cpp |  7 +++++--
 utils/vvflow/vvflow.cpp    | 22 +++++++++++++---------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..d2ab886 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -61,6 +61,16 @@ void Space::load(const char* fname, metainfo_t *info)
         h5_throw("H5Fclose", fname);
 }
 
+static std::string format_filename(const char* format, int step)
+{
+    int len = snprintf(NULL, 0, format, step);
+    if (len < 0)
+        throw std::invalid_argument(std::string("bad filename: ") + format);
+    std::vector<char> buf(len + 1);
+    snprintf(buf.data(), buf.size(), format, step);
+    return buf.data();
+}
+
 void Space::save(const char* format)
 {
     for (std::shared_ptr<TBody>& lbody: BodyList)
@@ -68,10 +78,9 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
+    std::string fname = format_filename(format, int(time/dt+0.5));
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
@@ -84,9 +93,9 @@ void Space::save(const char* format)
 
 FILE* Space::open_file(const char* format)
 {
-    char fname[64]; sprintf(fname, format, int(time/dt+0.5));
+    std::string fname = format_filename(format, int(time/dt+0.5));
     FILE *fout;
-    fout = fopen(fname, "w");
+    fout = fopen(fname.c_str(), "w");
     if (!fout) { perror("Error opening file"); return NULL; }
     return fout;
 }
diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index adea519..1016afb 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -16,9 +16,12 @@ static int space_load(lua_State *L) {
 static int space_save(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
-    const char* fname = luaL_checkstring(L, 2);
+    // Space::save expects a printf format
+    std::string fname;
+    for (const char* c = luaL_checkstring(L, 2); *c; c++)
+        fname += (*c == '%') ? std::string("%%") : std::string(1, *c);
     try {
-        S->save(fname);
+        S->save(fname.c_str());
     } catch (const std::invalid_argument &e) {
         return luaL_error(L, e.what());
     }
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..78b38e3 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -190,12 +190,18 @@ int simulate (lua_State *L) {
     #undef RAISE
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
-    char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
-    char f_results[240]; snprintf(f_results, 240, "results_%s", S.caption.c_str());
-    char f_sensors_output[256]; snprintf(f_sensors_output, 256, "velocity_%s", S.caption.c_str());
-    mkdir(f_results, 0777);
+    const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
+    const std::string f_results = "results_" + S.caption;
+    const std::string f_sensors_output = "velocity_" + S.caption;
+    mkdir(f_results.c_str(), 0777);
 
-    Stepdata stepdata = {&S, f_stepdata, !!opt::save_profile};
+    // Space::save expects a printf format
+    std::string f_snapshot;
+    for (char c: f_results)
+        f_snapshot += (c == '%') ? std::string("%%") : std::string(1, c);
+    f_snapshot += "/%06d.h5";
+
+    Stepdata stepdata = {&S, f_stepdata.c_str(), !!opt::save_profile};
 
     double dl = S.average_segment_length();
     double min_node_size = dl>0 ? dl*5 : 0;
@@ -205,7 +211,7 @@ int simulate (lua_State *L) {
     MEpsilonFast epsilon = {&S, &tr};
     MDiffusiveFast diffusive = {&S, &tr};
     MFlowmove flowmove = {&S};
-    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output);
+    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output.c_str());
     #ifdef OVERRIDEMOI
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
@@ -230,9 +236,7 @@ int simulate (lua_State *L) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
-            char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
-            S.save(tmp_filename);
+            S.save(f_snapshot.c_str());
             stepdata.flush();
         }
 
-- 
2.43.0


From d775987546f65e3aa8a849aed2e83f0d1583f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 06/82] fix: loading a snapshot drops the sinks of the previous
 problem

---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index d2ab886..afcb33f 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 9141459d0c0d259d5b730bc2216bff543c87efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 07/82] fix: keep the order of more than a hundred bodies when
 loading a snapshot

body100 was sorted before body11. Also, the name of a body above 999 did not
fit its buffer.
---
 libvvhd/src/TSpace.cpp          | 4 ++--
 libvvhd/src/TSpace_load_hdf.cpp | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index afcb33f..235adaf 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -228,7 +228,7 @@ int Space::get_body_index(const TBody* body) const
 
 std::string Space::get_body_name(const TBody* body) const
 {
-    char name[8];
-    sprintf(name, "body%02d", get_body_index(body));
+    char name[32];
+    snprintf(name, sizeof(name), "body%02d", get_body_index(body));
     return std::string(name);
 }
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..3ac7aaf 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,14 @@
 #include "vvhdf.h"
 
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+
+// body00, body01, ..., body99, body100, ...
+struct body_name_less {
+    bool operator()(const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-- 
2.43.0


From 4e969cb59b7c1d75d89efd571ced39844e911f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 08/82] fix: do not truncate the strength of a sink to an
 integer in its core size

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..d6749a0 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -162,7 +162,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     for (const auto& src: S->SourceList)
     {
         TVec dr = p - src.r;
-        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
+        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
 
     res *= C_1_2PI;
-- 
2.43.0


From 3b66b69d05da50b428d23da84fa301e890e1c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 09/82] fix: sign of the strength difference in the velocity of
 a linear source segment

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index d6749a0..7f901f3 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -451,7 +451,7 @@ TVec MConvectiveFast::SegmentInfluence_linear_source(TVec p, const TAtt &seg, do
     //complex<double> i(0,1);
 
     //cerr << z2 << "\t" << z1 << endl;
-    zV = ( (q2-q1) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
+    zV = ( (q1-q2) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
     //cerr << zV << endl;
     return TVec(zV.real(), zV.imag());
 }
-- 
2.43.0


From 142d731d4c97983bbed69fc8fbd2e276c37e2055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 10/82] fix: a sink of zero strength gives no velocity, not
 NaN, at its own place

---
 libvvhd/src/MConvectiveFast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 7f901f3..ad6de2b 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -161,6 +161,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     const double eps2_div_srcg = S->dt * C_1_PI;
     for (const auto& src: S->SourceList)
     {
+        if (!src.g) continue;
         TVec dr = p - src.r;
         res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
-- 
2.43.0


From 302a212d602146c2c653b5d8def1cd8cc4548c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 11/82] fix: the matrix forgets old unknowns and the old
 inverse when its size changes

---
 libvvhd/src/TMatrix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index f7dfd9c..8a03949 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -47,8 +47,10 @@ void Matrix::resize(unsigned newsize)
     RightCol =      (double*)realloc(RightCol,      N*sizeof(double));
     ipvt =             (int*)realloc(ipvt,          (N+1)*sizeof(int));
 
-    solution_ptr.resize(N);
+    solution_ptr.assign(N, nullptr);
+    solution_idx.clear();
 
+    bodyMatrixHash_ = 0; // InverseMatrix is not valid any more
     bodyMatrixIsOk_ = false;
 }
 
@@ -75,7 +77,8 @@ double *Matrix::getRightCol(unsigned eq)
 
 void Matrix::setSolutionForCol(unsigned col, double *ptr)
 {
-    solution_idx.erase(solution_ptr[col]);
+    if (getColForSolution(solution_ptr[col]) == col)
+        solution_idx.erase(solution_ptr[col]);
     solution_ptr[col] = ptr;
     solution_idx[ptr] = col;
 }
-- 
2.43.0


From f27d2c88e925cac18caf89d6e686b4b70831a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 12/82] fix: solving an empty system does not end the program

---
 libvvhd/src/TMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index 8a03949..c44c62a 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -170,6 +170,7 @@ void Matrix::solveUsingInverseMatrix(bool useInverseMatrix)
 {
     selfTest();
     // assert(!testNan());
+    if (!N) return;
 
     if (useInverseMatrix)
     {
-- 
2.43.0


From a10ebcc93c767e27b18bda7b18c243bb95f4e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 13/82] fix: the core of a lone or a coincident vortex is not
 zero, its velocity not NaN

---
 libvvhd/src/MEpsilonFast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MEpsilonFast.cpp b/libvvhd/src/MEpsilonFast.cpp
index b23fd2f..fbe15f3 100644
--- a/libvvhd/src/MEpsilonFast.cpp
+++ b/libvvhd/src/MEpsilonFast.cpp
@@ -44,7 +44,9 @@ void MEpsilonFast::CalcEpsilonFast(bool merge)
 
         double eps_restriction = nearestAtt ?
             nearestAtt->dl.abs()*(1.0/3.0)
-            : 0;
+            // a lone or a coincident particle still needs a core
+            // that can be squared and inverted
+            : 1e-100;
 
         for (TObj *lobj = lbnode->vRange.first; lobj < lbnode->vRange.last; lobj++)
         {
-- 
2.43.0


From 66b8d79decf5dfd23984a45b426d0895ae83bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 14/82] fix: the bounding box of the corners does not cut off
 the heat layer

---
 libvvhd/src/TBody.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 46a10de..cb2c0c7 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -216,6 +216,15 @@ void TBody::doUpdateSegments()
 
 TAtt* TBody::isPointInvalid(TVec p)
 {
+    // the bounding box and disc enclose the corners, but not the heat layer
+    if ( !isInsideValid() && (
+        p.x < _min_rect_bl.x ||
+        p.y < _min_rect_bl.y ||
+        p.x > _min_rect_tr.x ||
+        p.y > _min_rect_tr.y ||
+        (p-_cofm).abs2() > _min_disc_r2
+        )) return NULL;
+
     return isPointInContour(p, alist);
 }
 
@@ -239,14 +248,6 @@ template <class T>
 TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
 {
     bool inContour = isInsideValid();
-    if ( !inContour && (
-        p.x < _min_rect_bl.x ||
-        p.y < _min_rect_bl.y ||
-        p.x > _min_rect_tr.x ||
-        p.y > _min_rect_tr.y ||
-        (p-_cofm).abs2() > _min_disc_r2
-        )) return NULL;
-
     TAtt *nearest = NULL;
     double nearest_dr2 = std::numeric_limits<double>::max();
 
-- 
2.43.0


From d8e32ef908eaffd69d5a7dbe88ce93c47aed1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 15/82] fix: the heat layer of a moved body moves with it

---
 libvvhd/src/TBody.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index cb2c0c7..7e71634 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -199,6 +199,8 @@ void TBody::move(TVec3D deltaHolder, TVec3D deltaBody)
 
 void TBody::doUpdateSegments()
 {
+    heat_layer.clear();
+
     if (!alist.size()) {
         return;
     }
-- 
2.43.0


From 0c3d0201e7b289942df907c9837f908d0983a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 16/82] fix: dropping far heat keeps the heat layers pointing
 at their particles

---
 libvvhd/src/MFlowmove.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..e0784d0 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -276,8 +276,19 @@ void MFlowmove::heat_crop(double scale)
 {
     for (auto lobj = S->HeatList.begin(); lobj < S->HeatList.end(); )
     {
-        if (lobj->r.x > scale) S->HeatList.erase(lobj);
-        else lobj++;
+        if (!(lobj->r.x > scale)) { lobj++; continue; }
+
+        // segments remember the number of the particle in their heat layer
+        int64_t obj_no = lobj - S->HeatList.begin();
+        for (auto& lbody: S->BodyList)
+        {
+            for (auto& latt: lbody->alist)
+            {
+                if (latt.heat_layer_obj_no == obj_no) latt.heat_layer_obj_no = -1;
+                else if (latt.heat_layer_obj_no > obj_no) latt.heat_layer_obj_no--;
+            }
+        }
+        S->HeatList.erase(lobj);
     }
 }
 
-- 
2.43.0


From 821400d5c6ab7e485e20e3334be800deaac52b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 17/82] fix: sign of the source influence inside the core of
 its segment

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index ad6de2b..be0bd76 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -342,7 +342,7 @@ TVec MConvectiveFast::_2PI_Xi(const TVec &p, const TAtt &seg, double rd)
     }
     else if ( dr1_sqr<=rd_sqr && dr2_sqr<=rd_sqr )
     {
-        TVec dp = p-seg.r;
+        TVec dp = seg.r-p;
         return TVec(dp*seg.dl, dp*rotl(seg.dl))/sqr(rd);
     }
     else
-- 
2.43.0


From 66a7577bffb1772b3a63c7b5c5c00642861d46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 18/82] fix: a segment that touches a core exactly gets no NaN
 influence

---
 libvvhd/src/MConvectiveFast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index be0bd76..1e64a4c 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -1,6 +1,7 @@
 #include "MConvectiveFast.hpp"
 #include "elementary.h"
 
+#include <algorithm>
 #include <complex>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -297,7 +298,7 @@ double MConvectiveFast::_2PI_Xi_g(TVec p, const TAtt &seg, double rd) // in doc
     {
         double a0 = seg.dl.abs2();
         double b0 = (p-seg.r)*seg.dl;
-        double d  = sqrt(b0*b0-a0*((p-seg.r).abs2()-rd*rd));
+        double d  = sqrt(std::max(0., b0*b0-a0*((p-seg.r).abs2()-rd*rd)));
         double k  = (b0+d)/a0; if ((k<=-0.5)||(k>=0.5)) k = (b0-d)/a0;
         TVec p3 = seg.r + k*seg.dl;
 
@@ -349,7 +350,7 @@ TVec MConvectiveFast::_2PI_Xi(const TVec &p, const TAtt &seg, double rd)
     {
         double a0 = seg.dl.abs2();
         double b0 = (p-seg.r)*seg.dl;
-        double d  = sqrt(b0*b0-a0*((p-seg.r).abs2()-rd*rd));
+        double d  = sqrt(std::max(0., b0*b0-a0*((p-seg.r).abs2()-rd*rd)));
         double k  = (b0+d)/a0; if ((k<=-0.5)||(k>=0.5)) k = (b0-d)/a0;
         TVec p3 = seg.r + k*seg.dl;
 
-- 
2.43.0


From 524bd3fe3a318527e811ec859d1d49d6cddc51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 19/82] fix: where a segment leaves a core when its end lies on
 the rim

---
 libvvhd/src/MConvectiveFast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 1e64a4c..ee47a6f 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -299,7 +299,7 @@ double MConvectiveFast::_2PI_Xi_g(TVec p, const TAtt &seg, double rd) // in doc
         double a0 = seg.dl.abs2();
         double b0 = (p-seg.r)*seg.dl;
         double d  = sqrt(std::max(0., b0*b0-a0*((p-seg.r).abs2()-rd*rd)));
-        double k  = (b0+d)/a0; if ((k<=-0.5)||(k>=0.5)) k = (b0-d)/a0;
+        double k  = (dr1_sqr<rd_sqr) ? (b0+d)/a0 : (b0-d)/a0;
         TVec p3 = seg.r + k*seg.dl;
 
         if ( dr1_sqr<rd_sqr )
@@ -351,7 +351,7 @@ TVec MConvectiveFast::_2PI_Xi(const TVec &p, const TAtt &seg, double rd)
         double a0 = seg.dl.abs2();
         double b0 = (p-seg.r)*seg.dl;
         double d  = sqrt(std::max(0., b0*b0-a0*((p-seg.r).abs2()-rd*rd)));
-        double k  = (b0+d)/a0; if ((k<=-0.5)||(k>=0.5)) k = (b0-d)/a0;
+        double k  = (dr1_sqr<rd_sqr) ? (b0+d)/a0 : (b0-d)/a0;
         TVec p3 = seg.r + k*seg.dl;
 
         if ( dr1_sqr<rd_sqr )
-- 
2.43.0


From 0084299397debfbb09fc25ede10045eac8da222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 20/82] fix: the collision of a later body or component is not
 forgotten

---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index ee47a6f..f5b7920 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -927,8 +927,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -944,8 +944,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -962,8 +962,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From 5f236c411833323720eab76f04ad2ab542d1a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 21/82] fix: the vertical speed of a linked body is that of its
 holder

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index f5b7920..57caab5 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -840,7 +840,7 @@ void MConvectiveFast::fillSpeedYEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = 0;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = -1;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->get_axis() - root_body->get_axis()).x;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->holder.r - root_body->get_axis()).x;
     }
 }
 
-- 
2.43.0


From 2f37dde533e38b817b30c4dab5141382fb113a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 22/82] fix: a body at its stop does not turn the time back

---
 libvvhd/src/MFlowmove.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index e0784d0..59fcec5 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -48,6 +48,8 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
                 dt_ = (min[i] - cur_pos[i]) / speed[i];
             }
 
+            // at the limit already: stop at once, never go back in time
+            if (dt_ < 0) dt_ = 0;
             if (dt_ < current_dt) {
                 current_dt = dt_;
                 *collision = kspring_[i];
-- 
2.43.0


From aeaeb8313839b361421b6af7c736b1fbac17cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 23/82] fix: the moment of friction is about the axis of the
 body, not about the origin

---
 libvvhd/src/TSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 235adaf..2e75334 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -119,7 +119,7 @@ void Space::calc_forces()
             latt.Nu += latt.hsum * (re*pr / latt.dl.abs());
 
             lbody->friction.r -= latt.dl * (latt.fric * C_Nyu_Pi / latt.dl.abs());
-            lbody->friction.o -= (rotl(latt.r)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
+            lbody->friction.o -= (rotl(latt.r - lbody->get_axis())* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
             lbody->nusselt += latt.hsum * (re*pr);
         }
 
-- 
2.43.0


From 1cba998c3a2161bb545d815ea511e7aa384a792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 24/82] fix: vortex core sizes are known when the boundary
 conditions are solved first

---
 utils/vvflow/vvflow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 78b38e3..c54ccbd 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -222,6 +222,8 @@ int simulate (lua_State *L) {
         if (S.BodyList.size())
         {
             dbg(tr.build());
+            // core sizes are not stored in snapshots
+            dbg(epsilon.CalcEpsilonFast(/*merge=*/false));
 
             // решаем слау
             if (collision != nullptr) {
-- 
2.43.0


From 32e1a217f75573f8c714949611ad50bd15ef8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 25/82] fix: S.body.slip set from a script takes effect in
 velocities at once

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..1c90f8b 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties(); // get_slip() is cached
     return 0;
 }
 
-- 
2.43.0


From 09fd615aeb7fbab163a6be0ee5d63f6bd50ba995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 26/82] fix: snapshots hold the friction that enters the next
 step, so a continued viscous run agrees with an uninterrupted one

---
 libvvhd/src/TSpace_load_hdf.cpp | 28 ++++++++++++++++++++++++++++
 libvvhd/src/TSpace_save_hdf.cpp | 30 ++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 3ac7aaf..fba154a 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -176,6 +176,33 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         h5_throw("H5Dclose", name);
 }
 
+static void dataset_read_friction(hid_t fid, std::string name, TBody& body)
+{
+    if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
+        return;
+
+    hid_t h5d = H5Dopen(fid, name.c_str(), H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dopen", name);
+
+    hid_t h5s = H5Dget_space(h5d);
+    if (h5s < 0)
+        h5_throw("H5Dget_space", name);
+    if (H5Sget_simple_extent_npoints(h5s) != (hssize_t)body.size())
+        h5_throw("H5Sget_simple_extent_npoints", name);
+
+    std::vector<double> fric(body.size());
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, fric.data());
+    if (err < 0)
+        h5_throw("H5Dread", name);
+
+    for (size_t i=0; i<body.size(); i++)
+        body.alist[i].fric = fric[i];
+
+    H5Sclose(h5s);
+    H5Dclose(h5d);
+}
+
 static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void *op_data)
 {
     body_map_t& body_map = *(body_map_t*)op_data;
@@ -224,6 +251,7 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
         const std::shared_ptr<TBody>& lbody = pair.second;
 
         dataset_read_body(fid, name, body_map);
+        dataset_read_friction(fid, "friction_" + name, *lbody);
         BodyList.push_back(lbody);
     }
 
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index f96cfdb..5c09e3d 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -162,6 +162,35 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         h5_throw("H5Dclose", name);
 }
 
+// Friction of the last step enters the forces of the next one
+static void dataset_write_friction(hid_t fid, std::string name, const TBody& body)
+{
+    hsize_t N = body.size();
+    bool is_zero = true;
+    std::vector<double> fric(N);
+    for (hsize_t i=0; i<N; i++) {
+        fric[i] = body.alist[i].fric;
+        is_zero &= (fric[i] == 0);
+    }
+    if (is_zero)
+        return;
+
+    hid_t h5s = H5Screate_simple(1, &N, &N);
+    if (h5s < 0)
+        h5_throw("H5Screate_simple", name);
+
+    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dcreate", name);
+
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, fric.data());
+    if (err < 0)
+        h5_throw("H5Dwrite", name);
+
+    H5Dclose(h5d);
+    H5Sclose(h5s);
+}
+
 void Space::save_hdf(int64_t fid)
 {
     h5a_write<std::string const&> (fid, "caption", caption);
@@ -214,6 +243,7 @@ void Space::save_hdf(int64_t fid)
         }
 
         dataset_write_body(fid, body_name.c_str(), root_name, *lbody);
+        dataset_write_friction(fid, "friction_" + body_name, *lbody);
     }
 
     h5t_commit_all(fid);
-- 
2.43.0


From 594bb9f0d3f37ab9b96ae6b3995b6c6c0a9b3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 27/82] fix: vvflow reports unreadable snapshots and failed
 runs as errors instead of aborting or succeeding

---
 utils/vvflow/lua_space.cpp | 29 ++++++++++++++++++++---------
 utils/vvflow/vvflow.cpp    | 33 +++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index 1016afb..701d04a 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -9,23 +9,34 @@ static int space_load(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    S->load(fname);
-    return 0;
+    try {
+        S->load(fname);
+        return 0;
+    } catch (const std::exception &e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+        lua_concat(L, 2);
+    }
+    return lua_error(L);
 }
 
 static int space_save(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
-    // Space::save expects a printf format
-    std::string fname;
-    for (const char* c = luaL_checkstring(L, 2); *c; c++)
-        fname += (*c == '%') ? std::string("%%") : std::string(1, *c);
+    const char* arg = luaL_checkstring(L, 2);
     try {
+        // Space::save expects a printf format
+        std::string fname;
+        for (const char* c = arg; *c; c++)
+            fname += (*c == '%') ? std::string("%%") : std::string(1, *c);
         S->save(fname.c_str());
-    } catch (const std::invalid_argument &e) {
-        return luaL_error(L, e.what());
+        return 0;
+    } catch (const std::exception &e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+        lua_concat(L, 2);
     }
-    return 0;
+    return lua_error(L);
 }
 
 static int space_xstreamfunction(lua_State *L) {
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index c54ccbd..ac42d92 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -150,7 +150,8 @@ int main(int argc, char* const* argv)
     }
     lua_setglobal(L, "arg");
 
-    if (H5Fis_hdf5(opt::input)) {
+    H5Eset_auto(H5E_DEFAULT, NULL, NULL);
+    if (H5Fis_hdf5(opt::input) > 0) {
         lua_getglobal(L, "S");
         Space **ptr = (Space**)lua_touserdata(L, -1);
         lua_pop(L, 1);
@@ -159,7 +160,12 @@ int main(int argc, char* const* argv)
             throw std::runtime_error("Internal error 0x180");
         }
         Space &S = **ptr;
-        S.load(opt::input);
+        try {
+            S.load(opt::input);
+        } catch (const std::exception &e) {
+            fprintf(stderr, "vvflow: %s: %s\n", opt::input, e.what());
+            return 8;
+        }
         ret = luaL_dostring(L, "simulate()");
     } else {
         ret = luaL_dofile(L, opt::input);
@@ -174,20 +180,33 @@ int main(int argc, char* const* argv)
     return 0;
 }
 
+static void simulate_space(Space &S);
+
 int simulate (lua_State *L) {
     lua_getglobal(L, "S");
     Space **ptr = (Space**)lua_touserdata(L, -1);
     lua_pop(L, 1);
 
     if (!ptr) {
-        throw std::runtime_error("Internal error 0x180");
+        return luaL_error(L, "Internal error 0x180");
     }
     Space &S = **ptr;
 
     // error checking
-    #define RAISE(STR) { cerr << "vvflow ERROR: " << STR << endl; return -1; }
-    if (S.re <= 0) RAISE("invalid value re<=0");
-    #undef RAISE
+    if (S.re <= 0) {
+        return luaL_error(L, "vvflow ERROR: invalid value re<=0");
+    }
+
+    try {
+        simulate_space(S);
+        return 0;
+    } catch (const std::exception &e) {
+        lua_pushfstring(L, "vvflow ERROR: %s", e.what());
+    }
+    return lua_error(L);
+}
+
+static void simulate_space(Space &S) {
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
@@ -273,6 +292,4 @@ int simulate (lua_State *L) {
 
     if (opt::show_progress)
         fprintf(stderr, "\n");
-
-    return 0;
 }
-- 
2.43.0


From 4ea33b294f5129951f0036a80c378088f5816672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 28/82] fix: step history taken over from an earlier run with
 other bodies or segments

---
 libvvhd/headers/MStepdata.hpp |  1 +
 libvvhd/src/MStepdata.cpp     | 69 +++++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/libvvhd/headers/MStepdata.hpp b/libvvhd/headers/MStepdata.hpp
index 3da5c8b..587861f 100644
--- a/libvvhd/headers/MStepdata.hpp
+++ b/libvvhd/headers/MStepdata.hpp
@@ -16,6 +16,7 @@ class Stepdata
 
     private:
         int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols);
+        void h5d_shrink(int64_t loc_id, const char *name, size_t rows);
         void append(int64_t h5d, const void* buf);
         void append(int64_t h5d, double value);
         void append(int64_t h5d, TVec3D value);
diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..50e265d 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -82,8 +82,9 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
-        const char *bname = S->get_body_name(lbody.get()).c_str();
+        if (body_n >= blsize) continue;
+        const std::string body_name = S->get_body_name(lbody.get());
+        const char *bname = body_name.c_str();
         hid_t body_h5g;
         if (!H5Lexists(h5f, bname, H5P_DEFAULT))
         {
@@ -108,22 +109,27 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
             pressure_h5d[body_n]   = h5d_init(body_h5g, "pressure", rows, lbody->size());
             friction_h5d[body_n]   = h5d_init(body_h5g, "friction", rows, lbody->size());
         } else {
-            if (H5Lexists(body_h5g, "pressure", H5P_DEFAULT) > 0)
-            {
-                // shrink dataset
-                hid_t h5d = h5d_init(body_h5g, "pressure", rows, lbody->size());
-                H5Dclose(h5d);
-            }
-            if (H5Lexists(body_h5g, "friction", H5P_DEFAULT) > 0)
-            {
-                // shrink dataset
-                hid_t h5d = h5d_init(body_h5g, "friction", rows, lbody->size());
-                H5Dclose(h5d);
-            }
+            h5d_shrink(body_h5g, "pressure", rows);
+            h5d_shrink(body_h5g, "friction", rows);
         }
 
         H5Gclose(body_h5g);
     }
+
+    // bodies of an earlier run which are not there any more
+    for (size_t body_n=blsize; ; body_n++)
+    {
+        char bname[32];
+        snprintf(bname, sizeof(bname), "body%02zu", body_n);
+        if (H5Lexists(h5f, bname, H5P_DEFAULT) <= 0)
+            break;
+        hid_t body_h5g = H5Gopen(h5f, bname, H5P_DEFAULT);
+        if (body_h5g < 0)
+            h5_throw("H5Gopen", bname);
+        for (const char* name: {"force_hydro", "force_holder", "force_friction", "holder_position", "delta_position", "speed_slae", "pressure", "friction"})
+            h5d_shrink(body_h5g, name, rows);
+        H5Gclose(body_h5g);
+    }
 }
 
 Stepdata::~Stepdata()
@@ -157,7 +163,7 @@ void Stepdata::write()
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
+        if (body_n >= blsize) continue;
         append(force_hydro_h5d[body_n], lbody->force_hydro);
         append(force_holder_h5d[body_n], lbody->force_holder);
         append(force_friction_h5d[body_n], lbody->friction);
@@ -266,6 +272,16 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
         err = H5Sget_simple_extent_dims(h5s, cur_dims, NULL);
         if (err < 0)
             h5_throw("H5Sget_simple_extent_dims", name);
+        if (cur_dims[1] != cols)
+        {
+            // the body was divided into another number of segments
+            H5Sclose(h5s);
+            H5Dclose(h5d);
+            err = H5Ldelete(loc_id, name, H5P_DEFAULT);
+            if (err < 0)
+                h5_throw("H5Ldelete", name);
+            return h5d_init(loc_id, name, rows, cols);
+        }
         err = H5Dset_extent(h5d, new_dims);
         if (err < 0)
             h5_throw("H5Dset_extent", name);
@@ -288,3 +304,26 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
 
     return h5d;
 }
+
+void Stepdata::h5d_shrink(int64_t loc_id, const char *name, size_t rows)
+{
+    if (H5Lexists(loc_id, name, H5P_DEFAULT) <= 0)
+        return;
+
+    hid_t h5d = H5Dopen(loc_id, name, H5P_DEFAULT);
+    hid_t h5s = H5Dget_space(h5d);
+
+    hsize_t dims[2];
+    herr_t err = H5Sget_simple_extent_dims(h5s, dims, NULL);
+    if (err < 0)
+        h5_throw("H5Sget_simple_extent_dims", name);
+    if (dims[0] > rows)
+    {
+        dims[0] = rows;
+        err = H5Dset_extent(h5d, dims);
+        if (err < 0)
+            h5_throw("H5Dset_extent", name);
+    }
+    H5Sclose(h5s);
+    H5Dclose(h5d);
+}
-- 
2.43.0


From f9bc80488bb45985b7c72a15d8f9c2b83ee9ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 29/82] fix: gen_parallelogram without angle, gen_plate with
 impossible radii or crossed cuts are refused

---
 utils/vvflow/gen_parallelogram.cpp | 3 +--
 utils/vvflow/gen_plate.cpp         | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 2a46d43..aae428c 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -27,8 +27,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     H_ = get_param(L, "H",  "positive", std::numeric_limits<lua_Number>::min());
     d_ = get_param(L, "d", "in range (0, 180)",
         /*min*/ std::numeric_limits<lua_Number>::min(),
-        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()),
-        /*default*/ 0);
+        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()));
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 8dc94d9..16f3e62 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -30,6 +30,7 @@ int luavvd_gen_plate(lua_State *L) {
     R2 = get_param(L, "R2", ">= 0", 0);
     luaL_argcheck(L, (R1>0)|(R2>0), 1, "either 'R1' or 'R2' must be > 0");
     Ll = get_param(L, "L",  "positive", std::numeric_limits<double>::min());
+    luaL_argcheck(L, fabs(R2-R1)<Ll, 1, "'L' must be larger than the difference of 'R1' and 'R2'");
     start = get_param(L, "start", "in range [0, 1)",
         /*min*/ 0,
         /*max*/ 1 - std::numeric_limits<double>::epsilon(),
@@ -38,6 +39,7 @@ int luavvd_gen_plate(lua_State *L) {
         /*min*/ std::numeric_limits<double>::min(),
         /*max*/ 1,
         /*default*/ 1);
+    luaL_argcheck(L, start<stop, 1, "'start' must be less than 'stop'");
     gap   = get_param(L, "gap",   "positive",
         /*min*/ std::numeric_limits<double>::min(),
         /*max*/ std::numeric_limits<double>::infinity(),
-- 
2.43.0


From ffd2247306cbf02949accecf39a7e694ac270da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 30/82] fix: generators refuse segment lengths too coarse to
 make a body of

---
 utils/vvflow/gen_box.cpp           |  5 +++++
 utils/vvflow/gen_cylinder.cpp      | 10 ++++++++++
 utils/vvflow/gen_gis.cpp           |  5 +++++
 utils/vvflow/gen_parallelogram.cpp |  5 +++++
 utils/vvflow/gen_plate.cpp         |  5 +++++
 utils/vvflow/gen_savonius.cpp      |  5 +++++
 6 files changed, 35 insertions(+)

diff --git a/utils/vvflow/gen_box.cpp b/utils/vvflow/gen_box.cpp
index 5b0ea83..7084c4c 100644
--- a/utils/vvflow/gen_box.cpp
+++ b/utils/vvflow/gen_box.cpp
@@ -53,6 +53,11 @@ int luavvd_gen_chamber_box(lua_State *L) {
     gen_seg_dl(body->alist, TVec(+L2  ,   0.), TVec(+L2  ,   _H), dls, true);  // inner right
     gen_seg_dl(body->alist, TVec(+L2  ,   _H), TVec(0.   ,   _H), dls, true);  // inner top right
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_cylinder.cpp b/utils/vvflow/gen_cylinder.cpp
index 91d6d49..be90d73 100644
--- a/utils/vvflow/gen_cylinder.cpp
+++ b/utils/vvflow/gen_cylinder.cpp
@@ -37,6 +37,11 @@ int luavvd_gen_cylinder(lua_State *L) {
         gen_arc_N(body->alist, TVec(0, 0), R, 2*M_PI, 0, N);
     }
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
     pushTBody(L, body);
@@ -80,6 +85,11 @@ int luavvd_gen_semicyl(lua_State *L) {
     gen_arc_dl(body->alist, TVec(0, 0), R, 2*M_PI, M_PI, dl);
     gen_seg_dl(body->alist, TVec(-R, 0.), TVec(0., 0.), dl);
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
     pushTBody(L, body);
diff --git a/utils/vvflow/gen_gis.cpp b/utils/vvflow/gen_gis.cpp
index b2073f2..66ae735 100644
--- a/utils/vvflow/gen_gis.cpp
+++ b/utils/vvflow/gen_gis.cpp
@@ -57,6 +57,11 @@ int luavvd_gen_chamber_gpj(lua_State *L) {
     gen_seg_dl(body->alist, TVec(X3, -Y3), TVec(X3, -Y4), dls2, true);  // bbox right bottom
     gen_seg_dl(body->alist, TVec(X3, -Y4), TVec(X4, -Y4), dls,  true);  // bbox bottom
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index aae428c..1143b5e 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -51,6 +51,11 @@ int luavvd_gen_parallelogram(lua_State *L) {
     gen_seg_dl(body->alist, TVec(   L2, H_), TVec(L_+L2, H_), dl);
     gen_seg_dl(body->alist, TVec(L_+L2, H_), TVec(L_   ,  0), dl);
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 16f3e62..c8b86bf 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -88,6 +88,11 @@ int luavvd_gen_plate(lua_State *L) {
                             TVec(c2, 0)+r2*TVec(cos(phi2), +sin(phi2)), dl, false);
     gen_arc_dl(body->alist, TVec(c2, 0), r2, +phi2, +phi1,              dl, stop<1);
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_savonius.cpp b/utils/vvflow/gen_savonius.cpp
index c8a5860..8259c64 100644
--- a/utils/vvflow/gen_savonius.cpp
+++ b/utils/vvflow/gen_savonius.cpp
@@ -52,6 +52,11 @@ int luavvd_gen_savonius(lua_State *L) {
     gen_arc_dl(body->alist, TVec(-R*2, 0), h2  , 2*M_PI, M_PI  , dl);   // shell end, left
     gen_arc_dl(body->alist, TVec(-R  , 0), R+h2, M_PI  , 0     , dl);   // outer shell, left
 
+    if (body->size() < 3) {
+        body.reset(); // to prevent lua_error spoiling reference counting
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+
     body->doUpdateSegments();
     body->doFillProperties();
     pushTBody(L, body);
-- 
2.43.0


From 45f914b7256efe9fb318aa3260d4dfb4cdf94356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 31/82] fix: a problem that cannot be saved does not wipe the
 file; bodies linked in a loop are refused instead of hanging

---
 libvvhd/src/TSpace.cpp  |  4 ++++
 utils/vvflow/vvflow.cpp | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 2e75334..30e2dca 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <algorithm>
 #include <fstream>
 #include <limits>
 using std::fstream;
@@ -77,6 +78,9 @@ void Space::save(const char* format)
     for (std::shared_ptr<TBody>& lbody: BodyList)
     {
         lbody->validate(/*critical=*/true);
+        std::shared_ptr<TBody> root_body = lbody->root_body.lock();
+        if (root_body && std::find(BodyList.begin(), BodyList.end(), root_body) == BodyList.end())
+            throw std::invalid_argument("The root of a body must belong to the same space");
     }
 
     std::string fname = format_filename(format, int(time/dt+0.5));
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index ac42d92..f135a58 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -17,6 +17,7 @@
 #include "MFlowmove.hpp"
 #include "elementary.h"
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <cstdio>
@@ -206,7 +207,20 @@ int simulate (lua_State *L) {
     return lua_error(L);
 }
 
+static void check_links(const Space &S) {
+    for (const shared_ptr<TBody>& lbody: S.BodyList) {
+        size_t depth = 0;
+        for (shared_ptr<TBody> root = lbody->root_body.lock(); root; root = root->root_body.lock()) {
+            if (std::find(S.BodyList.begin(), S.BodyList.end(), root) == S.BodyList.end())
+                throw std::invalid_argument("The root of a body must belong to the same space");
+            if (++depth > S.BodyList.size())
+                throw std::invalid_argument("bodies are linked in a loop");
+        }
+    }
+}
+
 static void simulate_space(Space &S) {
+    check_links(S);
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
-- 
2.43.0


From 053068016529dd3e6062a596be5787c55f4ac889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 32/82] fix: percentile of a field of few values, malformed
 field files are refused

---
 libvvhd/src/XField.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..8f5896d 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -38,18 +38,20 @@ XField::XField(const std::string& str):
 
     const float* data = reinterpret_cast<const float*>(str.c_str());
     float N = data[0];
-    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0) {
+    if (!std::isfinite(N) || N <= 1 || N > str.size() || fmod(N, 1) != 0) {
         fprintf(stderr, "N = %lg\n", N);
         throw std::invalid_argument("XField(str): invalid data");
     }
 
     xres = N;
     yres = str.size()/sizeof(float)/(xres+1) - 1;
-    if (str.size() != sizeof(float)*(xres+1)*(yres+1))
+    if (yres <= 1 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
     float dx = data[2] - data[1];
     float dy = data[2*(xres+1)] - data[1*(xres+1)];
+    if (!std::isfinite(dx) || !std::isfinite(dy) || dx <= 0 || dy <= 0)
+        throw std::invalid_argument("XField(str): bad spacing");
     if (fabs(dx-dy) > std::min(fabs(dx), fabs(dy))/1000 ) {
         fprintf(stderr, "Bad spacing: %lg != %lg (diff %lg)\n",
             dx, dy, fabs(dx-dy)
@@ -116,7 +118,10 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty())
+        return 0;
+
+    size_t N = std::max(1.0f, std::floor(v.size()*p));
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From 6b28ff7d25cb6aee92a4ca8f9fff27405a482427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 33/82] fix: fields in the reference frame of a body refuse a
 problem without bodies

---
 libvvhd/src/XPressure.cpp       | 2 ++
 libvvhd/src/XStreamfunction.cpp | 2 ++
 libvvhd/src/XVelocity.cpp       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index b05a24f..a83ac46 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -44,6 +44,8 @@ void XPressure::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XPressure(): there is no body to refer to");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..057d1f1 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -57,6 +57,8 @@ void XStreamfunction::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XStreamfunction(): there is no body to refer to");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..e9f4083 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -31,6 +31,8 @@ void XVelocity::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XVelocity(): there is no body to refer to");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
-- 
2.43.0


From 7c119b7f48023a781d43c3ecc31d94805509b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 34/82] fix: computing a field does not change the bodies of
 the problem

---
 libvvhd/src/XPressure.cpp  | 3 +++
 libvvhd/src/XVelocity.cpp  | 3 +++
 libvvhd/src/XVorticity.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index a83ac46..41f3f0b 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -58,6 +58,9 @@ void XPressure::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // the copy of the space still shares the bodies with the original one
+    for (auto& lbody: S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
     flowmove.vortex_shed();
 
     //дано: условие непротекания выполнено, неизвестные вихри найдены и рождены.
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index e9f4083..90dd982 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -49,6 +49,9 @@ void XVelocity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // the copy of the space still shares the bodies with the original one
+    for (auto& lbody: S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
     tree.build();
     eps.CalcEpsilonFast(false);
 
diff --git a/libvvhd/src/XVorticity.cpp b/libvvhd/src/XVorticity.cpp
index aa86e7b..85adc2b 100644
--- a/libvvhd/src/XVorticity.cpp
+++ b/libvvhd/src/XVorticity.cpp
@@ -34,6 +34,9 @@ void XVorticity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // the copy of the space still shares the bodies with the original one
+    for (auto& lbody: S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
     MFlowmove flowmove = {&S};
     flowmove.vortex_shed();
 
-- 
2.43.0


From c2cc69d8387f47b475f11e9d058b56cf2643cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 35/82] fix: the velocity field includes the vortices on the
 bodies

---
 libvvhd/src/XVelocity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 90dd982..43e00b6 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -1,5 +1,7 @@
 #include "XVelocity.hpp"
 
+#include "MFlowmove.hpp"
+
 #include <cmath>
 #include <limits>
 
@@ -52,6 +54,7 @@ void XVelocity::evaluate()
     // the copy of the space still shares the bodies with the original one
     for (auto& lbody: S.BodyList)
         lbody = std::make_shared<TBody>(*lbody);
+    MFlowmove(&S).vortex_shed();
     tree.build();
     eps.CalcEpsilonFast(false);
 
-- 
2.43.0


From e789fd08677633b3fe9296e6f499d9d027a7f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 36/82] fix: streamlines left of a sink that is to the right of
 the grid

---
 libvvhd/headers/XStreamfunction.hpp | 2 +-
 libvvhd/src/XStreamfunction.cpp     | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libvvhd/headers/XStreamfunction.hpp b/libvvhd/headers/XStreamfunction.hpp
index 7727f84..801e92b 100644
--- a/libvvhd/headers/XStreamfunction.hpp
+++ b/libvvhd/headers/XStreamfunction.hpp
@@ -25,5 +25,5 @@ private:
     double dl; // = S.AverageSenmentLength()
     double rd2; // = (0.2*dl)^2
 
-    double streamfunction(const TSortedNode &node, TVec p, double* psi_gap) const;
+    double streamfunction(const TSortedNode &node, TVec p, double* psi_gap, bool last) const;
 };
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 057d1f1..31f355a 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -106,7 +106,7 @@ void XStreamfunction::evaluate()
                 double psi_gap = 0;
                 // mem[xi*dims[1]+yj] = streamfunction(S, &tree, TVec(x, y), spacing, psi_gap);
                 const TSortedNode& bnode = *tree.findNode(p);
-                map[yj*xres+xi] = streamfunction(bnode, p, &psi_gap);
+                map[yj*xres+xi] = streamfunction(bnode, p, &psi_gap, xi == xres-1);
                 if (psi_gap)
                 {
                     #pragma omp critical
@@ -160,7 +160,7 @@ double XStreamfunction::streamfunction(const Space &S, TVec p)
     return tmp_4pi_psi_g*C_1_4PI + tmp_2pi_psi_q*C_1_2PI + p*rotl(S.inf_speed());
 }
 
-double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double* psi_gap) const
+double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double* psi_gap, bool last) const
 {
     double tmp_4pi_psi_g = 0.0;
     double tmp_2pi_psi_q = 0.0;
@@ -189,7 +189,8 @@ double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double*
     {
         tmp_2pi_psi_q += _2pi_psi_q(p-src.r, src.g);
 
-        if (p.x < src.r.x && src.r.x <= p.x+dxdy &&
+        // the cut of the angle reaches the whole row to the left of the source
+        if (p.x < src.r.x && (src.r.x <= p.x+dxdy || last) &&
             p.y < src.r.y && src.r.y <= p.y+dxdy)
         {
             *psi_gap += src.g;
-- 
2.43.0


From ce9cf051f7e675a9ee2b66f07de69807bfb32633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 37/82] fix: a problem with a time step that is not positive is
 refused instead of hanging

---
 utils/vvflow/vvflow.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index f135a58..0271702 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -194,9 +194,12 @@ int simulate (lua_State *L) {
     Space &S = **ptr;
 
     // error checking
-    if (S.re <= 0) {
+    if (!(S.re > 0)) {
         return luaL_error(L, "vvflow ERROR: invalid value re<=0");
     }
+    if (S.dt.value <= 0) {
+        return luaL_error(L, "vvflow ERROR: invalid value dt<=0");
+    }
 
     try {
         simulate_space(S);
-- 
2.43.0


From c69e6f54cd714527e3415a6738fb904c1eca7771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 38/82] fix: vvflow fails if the sensors file can not be read

---
 utils/vvflow/vvflow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 0271702..827905c 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -24,6 +24,8 @@
 
 #include <sys/stat.h>
 #include <sys/types.h>
+#include <unistd.h>
+#include <cerrno>
 #include <cstring>
 #include <ctime>
 
@@ -200,6 +202,9 @@ int simulate (lua_State *L) {
     if (S.dt.value <= 0) {
         return luaL_error(L, "vvflow ERROR: invalid value dt<=0");
     }
+    if (opt::sensors_file && access(opt::sensors_file, R_OK)) {
+        return luaL_error(L, "vvflow ERROR: can not read '%s' (%s)", opt::sensors_file, strerror(errno));
+    }
 
     try {
         simulate_space(S);
-- 
2.43.0


From 0b7fb6201cbeae9fcf324753b9b183884ec84d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 39/82] fix: vvflow --version names vvflow

---
 utils/vvflow/optparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/optparse.cpp b/utils/vvflow/optparse.cpp
index 32cdcb4..5391b61 100644
--- a/utils/vvflow/optparse.cpp
+++ b/utils/vvflow/optparse.cpp
@@ -58,7 +58,7 @@ void opt::parse(int argc, char* const* argv) {
 
         switch (c) {
         case 'v': // -v, --version
-            printf("vvplot %s\n", libvvhd_gitinfo);
+            printf("vvflow %s\n", libvvhd_gitinfo);
             printf("revision: %s\n", libvvhd_gitrev);
             if (libvvhd_gitdiff[0] == '\0') exit(0);
             printf("git_diff: %s\n", libvvhd_gitdiff);
-- 
2.43.0


From 31fb92693b77f1a7e81dfb29ef119499f865be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 40/82] fix: a time given by a table of numbers that are not
 integers is refused, not cut

---
 utils/vvflow/getset.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 258beab..6054ffe 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -85,7 +85,8 @@ int luavvd_setTTime(lua_State *L) {
         lua_rawgeti(L, 2, 2); // push table[2]        
         nt.value = lua_tointegerx(L, -2, &isnum[0]);
         nt.timescale = lua_tointegerx(L, -1, &isnum[1]);
-        if (!isnum[0] || !isnum[1]) {
+        if (!isnum[0] || !isnum[1] || lua_tonumber(L, -2) != nt.value ||
+            (lua_tonumber(L, -1) != nt.timescale && lua_tonumber(L, -1) >= 1)) {
             const char *typ1 = luaL_typename(L, -2);
             const char *typ2 = luaL_typename(L, -1);
             lua_pushfstring(L, "TTime needs two integers, got %s and %s", typ1, typ2);
-- 
2.43.0


From 6d0dd22d43635e51b082e083b03da4cad764cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 41/82] fix: lists that can not be read are reported

---
 libvvhd/src/TSpace.cpp       | 21 ++++++++++++---------
 utils/vvflow/lua_objlist.cpp |  5 ++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 30e2dca..e2f3ecc 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -6,10 +6,9 @@
 #include "vvhdf.h"
 
 #include <algorithm>
-#include <fstream>
+#include <cerrno>
+#include <cstdio>
 #include <limits>
-using std::fstream;
-using std::ios;
 static const double d_inf = std::numeric_limits<double>::infinity();;
 
 Space::Space():
@@ -168,24 +167,28 @@ int Space::load_list_txt(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    int err = ferror(fin) ? (errno ? errno : EIO) : 0;
     fclose(fin);
-    return 0;
+    return err;
 }
 
 int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
 {
-    fstream fin;
-    fin.open(filename, ios::in | ios::binary);
+    FILE *fin = fopen(filename, "rb");
     if (!fin) { return errno; }
 
     TObj obj(0, 0, 0);
-    while ( fin.read(reinterpret_cast<char*>(&obj), 3*sizeof(double)) )
+    double xyg[3];
+    while ( fread(xyg, sizeof(xyg), 1, fin) == 1 )
     {
+        obj.r = TVec(xyg[0], xyg[1]);
+        obj.g = xyg[2];
         li.push_back(obj);
     }
 
-    fin.close();
-    return 0;
+    int err = ferror(fin) ? (errno ? errno : EIO) : 0;
+    fclose(fin);
+    return err;
 }
 
 int Space::load_body_txt(const char* filename)
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..fb5d641 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -42,7 +42,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
-- 
2.43.0


From 8b1ae4db00c221755a1356885b3de654046e413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 42/82] fix: a body file with long lines or without a slip
 column is read as it is

---
 libvvhd/src/TBody.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 7e71634..f98873f 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -1,6 +1,8 @@
 #include "TBody.hpp"
 
+#include <cerrno>
 #include <cstdio>
+#include <cstdlib>
 #include <limits>
 
 using std::numeric_limits;
@@ -359,14 +361,16 @@ int TBody::load_txt(const char* filename)
     if (!fin) { return errno; }
 
     TVec corner;
-    uint32_t slip = false;
     int  err = 0;
-    char line[128];
-    while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
+    char*  line = NULL;
+    size_t line_size = 0;
+    while ( !err && getline(&line, &line_size, fin) >= 0 )
     {
+        uint32_t slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
         alist.emplace_back(corner, slip);
     }
+    free(line);
 
     err |= ferror(fin);
     fclose(fin);
-- 
2.43.0


From cd81359583169494f4f8f0ffc9ffe9611f2d19ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 43/82] fix: vvxtract --info gives the numbers of streak
 sources and streak points the right way round

---
 utils/vvxtract/vvxtract.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 04fa51c..bb0f7ed 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -103,8 +103,8 @@ int main(int argc, char **argv)
         printf("-- #S.body_list = %zd -- number of elements\n", long(S.BodyList.size()));
         printf("-- #S.vort_list = %zd\n", long(S.VortexList.size()));
         printf("-- #S.sink_list = %zd\n", long(S.SourceList.size()));
-        printf("-- #S.streak_source_list = %zd\n", long(S.StreakList.size()));
-        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_source_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakList.size()));
 
         for (shared_ptr<TBody>& lbody: S.BodyList)
         {
-- 
2.43.0


From 2fad7d70dcd04197cdbc3fee383f03fa56861998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 44/82] fix: vvxtract --info names the bodies without labels

---
 utils/vvxtract/vvxtract.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index bb0f7ed..79997f5 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -110,13 +110,9 @@ int main(int argc, char **argv)
         {
             const TBody& b = *lbody;
             printf("\n");
-            const char* blabel;
-            printf("-- %s (%s)", S.get_body_name(&b).c_str(), b.label.c_str());
-            if (!b.label.empty()){
-                blabel = b.label.c_str();
-            } else {
-                blabel = S.get_body_name(&b).c_str();
-            }
+            const std::string bname = S.get_body_name(&b);
+            const char* blabel = b.label.empty() ? bname.c_str() : b.label.c_str();
+            printf("-- %s (%s)", bname.c_str(), b.label.c_str());
             printf("\n");
             #define S2D(v) v.x, v.y
             #define S3D(v) v.r.x, v.r.y, v.o
@@ -136,7 +132,7 @@ int main(int argc, char **argv)
             printf("%s.collision_max = {%lg, %lg, %lg} -- .d = %lg\n", blabel, S4D(b.collision_max));
             printf("%s.bounce = %lg\n", blabel, b.bounce);
 
-            uint32_t slip = b.alist.begin()->slip;
+            uint32_t slip = b.alist.empty() ? 0 : b.alist.front().slip;
             for (auto& latt: b.alist) {
                 if (latt.slip != slip) {
                     slip = 3;
@@ -150,13 +146,8 @@ int main(int argc, char **argv)
                 printf("%s.root = nil\n", blabel);
             } else {
                 shared_ptr<TBody> lroot = b.root_body.lock();
-                const char* rlabel;
-                if (!lroot->label.empty()){
-                    rlabel = lroot->label.c_str();
-                } else {
-                    rlabel = S.get_body_name(lroot.get()).c_str();
-                }
-                printf("%s.root = %s\n", blabel, rlabel);
+                const std::string rlabel = lroot->label.empty() ? S.get_body_name(lroot.get()) : lroot->label;
+                printf("%s.root = %s\n", blabel, rlabel.c_str());
             }
 
             printf("-- #%s = %zd -- number of segments\n", blabel, b.size());
-- 
2.43.0


From 5721cba3803f3dfbc1cd08b046c652dd3c248997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 45/82] fix: vvxtract reports unreadable contents instead of
 being aborted

---
 utils/vvxtract/vvxtract.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 79997f5..d6f8fe1 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -41,10 +41,8 @@ namespace opt {
     char* const* argv;
 }
 
-int main(int argc, char **argv)
+static int vvxtract(char **argv)
 {
-    opt::parse(argc, argv);
-
     H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
     hid_t fid = H5Fopen(opt::input, H5F_ACC_RDONLY, H5P_DEFAULT);
     if (fid < 0)
@@ -240,3 +238,15 @@ int main(int argc, char **argv)
 
     return 0;
 }
+
+int main(int argc, char **argv)
+{
+    opt::parse(argc, argv);
+
+    try {
+        return vvxtract(argv);
+    } catch (const std::exception& e) {
+        fprintf(stderr, "%s: %s: %s\n", argv[0], opt::input, e.what());
+        return 4;
+    }
+}
-- 
2.43.0


From 8b5ad82bb00650931db2e99133ff1a6ebac56fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 46/82] fix: friction in snapshots is a table that vvxtract
 prints

---
 libvvhd/src/TSpace_save_hdf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index 5c09e3d..b26f1b3 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -175,7 +175,8 @@ static void dataset_write_friction(hid_t fid, std::string name, const TBody& bod
     if (is_zero)
         return;
 
-    hid_t h5s = H5Screate_simple(1, &N, &N);
+    hsize_t dims[2] = {N, 1}; // vvxtract prints tables
+    hid_t h5s = H5Screate_simple(2, dims, dims);
     if (h5s < 0)
         h5_throw("H5Screate_simple", name);
 
-- 
2.43.0


From a9c146a93752046cdd89dfa624a232acaec71bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 47/82] fix: vvxtract --info exits after showing a step
 history, too

---
 utils/vvxtract/vvxtract.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index d6f8fe1..d92e317 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -156,6 +156,9 @@ static int vvxtract(char **argv)
             printf("-- %s.get_moi_cofm() = %lg\n", blabel, b.get_moi_cofm());
             printf("-- %s.get_moi_axis() = %lg\n", blabel, b.get_moi_axis());
         }
+    }
+
+    if (opt::b_info) {
         return 0;
     }
 
-- 
2.43.0


From 01171afde2082b3c6685a205c2694875f1e3936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 48/82] fix: vvplot reports errors instead of being aborted

---
 utils/vvplot/vvplot.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bc53b46..7b73fc1 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -566,9 +566,14 @@ int main(int argc, char **argv)
 {
     opt::parse(argc, argv);
 
-    if (opt::ifmt == ffmt::hdf) {
-        return main_hdf(argc, argv);
-    } else {
-        return main_tar(argc, argv);
+    try {
+        if (opt::ifmt == ffmt::hdf) {
+            return main_hdf(argc, argv);
+        } else {
+            return main_tar(argc, argv);
+        }
+    } catch (const std::exception& e) {
+        fprintf(stderr, "%s: %s\n", argv[0], e.what());
+        return 1;
     }
 }
-- 
2.43.0


From 100edd47e60ebf77c8c9b68aa40d33dfbbf6366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 49/82] fix: vvplot fails if the tar file can not be written

---
 utils/vvplot/gnuplotter.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index f982b05..8b63e03 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -13,6 +13,12 @@ Gnuplotter::Gnuplotter():
     files()
 {}
 
+static std::string archive_error(struct archive *a)
+{
+    const char* err = archive_error_string(a);
+    return err ? err : "unknown error";
+}
+
 static void archive(
     struct archive *a,
     const std::string& name,
@@ -24,9 +30,15 @@ static void archive(
     archive_entry_set_size(e, data.size());
     archive_entry_set_filetype(e, AE_IFREG);
     archive_entry_set_perm(e, perm);
-    archive_write_header(a, e);
-    archive_write_data(a, data.c_str(), data.size());
+    int rc = archive_write_header(a, e);
     archive_entry_free(e);
+    ssize_t ws = 0;
+    if (rc >= ARCHIVE_WARN) {
+        ws = archive_write_data(a, data.c_str(), data.size());
+    }
+    if (rc < ARCHIVE_WARN || ws != ssize_t(data.size())) {
+        throw std::runtime_error("Error writing '" + name + "': " + archive_error(a));
+    }
 }
 
 void Gnuplotter::save(const std::string& filename)
@@ -34,14 +46,20 @@ void Gnuplotter::save(const std::string& filename)
     struct archive *a = archive_write_new();
 
     archive_write_set_format_pax_restricted(a);
-    archive_write_open_filename(a, filename.c_str());
+    int rc = archive_write_open_filename(a, filename.c_str());
+    if (rc != ARCHIVE_OK) {
+        throw std::runtime_error("Error opening '" + filename + "': " + archive_error(a));
+    }
 
     archive(a, "plot.gp", script.str(), 0755);
     for (auto& f: files) {
         archive(a, f.first, f.second);
     }
 
-    archive_write_close(a);
+    rc = archive_write_close(a);
+    if (rc < ARCHIVE_WARN) {
+        throw std::runtime_error("Error writing '" + filename + "': " + archive_error(a));
+    }
     archive_write_free(a);
 }
 
-- 
2.43.0


From a5f9f5a7f1c1bc683fab7dcbcb8ffae1e8004dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 50/82] fix: vvplot reads tar files of any size and refuses
 those without a plot

---
 utils/vvplot/gnuplotter.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 8b63e03..8a307c7 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -65,7 +65,7 @@ void Gnuplotter::save(const std::string& filename)
 
 void Gnuplotter::load(const std::string& filename)
 {
-    ssize_t size;
+    bool has_script = false;
 
     struct archive *a = archive_read_new();
     archive_read_support_filter_all(a);
@@ -82,32 +82,36 @@ void Gnuplotter::load(const std::string& filename)
         int rc;
         struct archive_entry *entry;
         rc = archive_read_next_header(a, &entry);
-        if (rc == ARCHIVE_FATAL) {
-            std::string err = "Error reading '" + filename + "': ";
-            err += archive_error_string(a);
-            throw std::runtime_error(err);
-        } else if (rc == ARCHIVE_EOF) {
+        if (rc == ARCHIVE_EOF) {
             break;
+        } else if (rc < ARCHIVE_WARN) {
+            throw std::runtime_error("Error reading '" + filename + "': " + archive_error(a));
         }
 
-        std::string pathname = archive_entry_pathname(entry);
-        size_t esize = archive_entry_size(entry);
-        char buf[esize];
-
-        size_t rsize = archive_read_data(a, buf, esize);
+        const char* name = archive_entry_pathname(entry);
+        std::string pathname = name ? name : "";
+        std::string content;
+        char buf[16384];
+        ssize_t rsize;
+        while ((rsize = archive_read_data(a, buf, sizeof(buf))) > 0) {
+            content.append(buf, rsize);
+        }
         if (rsize < 0) {
-            std::string err = "Error reading '" + filename + "' (" + pathname + "): ";
-            err += archive_error_string(a);
-            throw std::runtime_error(err);
+            throw std::runtime_error("Error reading '" + filename + "' (" + pathname + "): " + archive_error(a));
         }
 
         if (pathname == "plot.gp") {
-            script.write(buf, rsize);
+            script << content;
+            has_script = true;
         } else {
-            files[pathname] = std::string(buf, rsize);
+            files[pathname] = content;
         }
     }
 
+    if (!has_script) {
+        throw std::runtime_error("Error reading '" + filename + "': there is no plot.gp");
+    }
+
     archive_read_free(a);
 }
 
-- 
2.43.0


From b003c7f5f97a95a6ae343ebd2947bc036f574df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 51/82] fix: vvplot replaces the whole target file

---
 utils/vvplot/gnuplotter.cpp | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 8a307c7..d096896 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -115,35 +115,46 @@ void Gnuplotter::load(const std::string& filename)
     archive_read_free(a);
 }
 
+static int memfile(const std::string& name, const std::string& content)
+{
+    int memfd = syscall(SYS_memfd_create, name.substr(0, 200).c_str(), 0);
+    size_t pos = 0;
+    while (memfd >= 0 && pos < content.size()) {
+        ssize_t ws = write(memfd, content.data() + pos, content.size() - pos);
+        if (ws < 0) break;
+        pos += ws;
+    }
+    if (memfd < 0 || pos < content.size()) {
+        throw std::runtime_error("Error storing '" + name + "': " + strerror(errno));
+    }
+    return memfd;
+}
+
 void Gnuplotter::exec(const std::string& filename)
 {
     std::string script_str = script.str();
 
-    int fd = open(filename.c_str(), O_WRONLY|O_CREAT, 0644);
-    if (fd < 0) {
-        std::string err = "Error opening '" + filename + "': ";
-        err += strerror(errno);
-        throw std::runtime_error(err);
-    }
-    dup2(fd, 1);
-
     for (auto& f: files) {
-        std::string name = f.first;
-        std::string content = f.second;
-
-        int memfd = syscall(SYS_memfd_create, name.c_str(), 0);
-        size_t ws = write(memfd, content.data(), content.size());
+        int memfd = memfile(f.first, f.second);
 
-        std::string old_str = strfmt("'%s'", name.c_str());
+        std::string old_str = "'" + f.first + "'";
         std::string new_str = strfmt("'/dev/fd/%d'", memfd);
-        size_t pos = script_str.find(old_str);
-        if (pos != std::string::npos) {
+        size_t pos = 0;
+        while ((pos = script_str.find(old_str, pos)) != std::string::npos) {
             script_str.replace(pos, old_str.size(), new_str);
+            pos += new_str.size();
         }
     }
 
-    int memfd = syscall(SYS_memfd_create, "plot.gp", 0);
-    size_t ws = write(memfd, script_str.data(), script_str.size());
+    int memfd = memfile("plot.gp", script_str);
+
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
+    if (fd < 0) {
+        std::string err = "Error opening '" + filename + "': ";
+        err += strerror(errno);
+        throw std::runtime_error(err);
+    }
+    dup2(fd, 1);
 
     int rc = execlp("gnuplot", "gnuplot", strfmt("/dev/fd/%d", memfd).c_str(), NULL);
     if (rc < 0) {
-- 
2.43.0


From 30dfdc270f375b29cb220525ae2b448ec0018338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 52/82] fix: vvplot keeps the outlines of bodies with equal or
 odd labels apart

---
 utils/vvplot/vvplot.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 7b73fc1..2dc27c0 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -21,6 +21,7 @@
 
 /* std::... */
 #include <string>
+#include <algorithm>
 #include <vector>
 #include <limits>
 #include <iostream>
@@ -83,6 +84,32 @@ namespace opt {
     int ofmt = ffmt::png;
 }
 
+/* The name of the data file of a body: its label, unless that could be confused
+   with another data file or with the text of the gnuplot script */
+static std::string body_file_name(const Space& S, const TBody& body)
+{
+    static const char* reserved[] = {
+        "black", "plot.gp", "vortex_list", "streamlines", "isopressure",
+        "body_holders", "body_springs",
+    };
+
+    bool plain = !body.label.empty() && body.label[0] != '.';
+    for (char c: body.label) {
+        plain = plain && (isalnum((unsigned char)c) || strchr("_-. ", c));
+    }
+    for (const char* name: reserved) {
+        plain = plain && body.label != name;
+    }
+    plain = plain && body.label.compare(0, 4, "map_") != 0;
+    plain = plain && body.label.compare(0, 6, "ttree_") != 0;
+    for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
+        plain = plain && (lbody.get() == &body || lbody->label != body.label);
+        plain = plain && S.get_body_name(lbody.get()) != body.label;
+    }
+
+    return plain ? body.label : S.get_body_name(&body);
+}
+
 int main_hdf(int argc, char **argv)
 {
     Space S;
@@ -94,7 +121,9 @@ int main_hdf(int argc, char **argv)
     gp << "#!/usr/bin/env gnuplot" << std::endl;
     gp << "# Generated by vvplot:" << std::endl << "#";
     for (int i=0; i<argc; i++) {
-        gp << " " << argv[i];
+        std::string arg = argv[i];
+        std::replace(arg.begin(), arg.end(), '\n', ' ');
+        gp << " " << arg;
     }
     gp << "\n" << std::endl;
 
@@ -381,10 +410,10 @@ int main_hdf(int argc, char **argv)
 
     for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
         const TBody& b = *lbody;
-        std::string blabel = b.label;
-        if (blabel.empty()){
-            blabel = S.get_body_name(&b);
+        if (b.alist.empty()) {
+            continue;
         }
+        std::string blabel = body_file_name(S, b);
 
         if (opt::B) {
             plot_cmd << DELIMITER;
-- 
2.43.0


From c9bf3f8631df3361eb9e51a48420261ed302862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 53/82] fix: vvplot writes positions and sizes with all their
 digits

---
 utils/vvplot/vvplot.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 2dc27c0..d6246e2 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -163,8 +163,8 @@ int main_hdf(int argc, char **argv)
     gp << "set zeroaxis" << std::endl;
     gp << "unset xtics" << std::endl;
     gp << "unset ytics" << std::endl
-    << strfmt( "set xrange [%lg:%lg]", opt::rect.xmin, opt::rect.xmax) << std::endl
-    << strfmt( "set yrange [%lg:%lg]", opt::rect.ymin, opt::rect.ymax) << std::endl;
+    << strfmt( "set xrange [%.12lg:%.12lg]", opt::rect.xmin, opt::rect.xmax) << std::endl
+    << strfmt( "set yrange [%.12lg:%.12lg]", opt::rect.ymin, opt::rect.ymax) << std::endl;
     if (opt::colorbox) {
         gp << "set format cb \"\"" << std::endl;
         gp << "set colorbox horizontal user";
@@ -351,7 +351,7 @@ int main_hdf(int argc, char **argv)
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " binary format='%3float'";
-            plot_cmd << strfmt(  " u 1:2:(%lf):(color($3))", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(%.12lg):(color($3))", opt::Vcirc);
             plot_cmd << " with circles lc rgb variable fs transparent solid 0.3 noborder";
         }
     }
@@ -440,6 +440,8 @@ int main_hdf(int argc, char **argv)
     if (opt::holder || opt::spring) {
         std::stringstream body_holders;
         std::stringstream body_springs;
+        body_holders.precision(12);
+        body_springs.precision(12);
         for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
             TVec p_h = lbody->holder.r;
             body_holders << p_h.x << " " << p_h.y;
@@ -456,19 +458,19 @@ int main_hdf(int argc, char **argv)
         if (opt::holder) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_holders'";
-            plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(1.5*%.12lg)", opt::Vcirc);
             plot_cmd << " w circles lc rgb 'black' fs solid noborder";
         }
         if (opt::spring) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_springs'";
-            plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(1.5*%.12lg)", opt::Vcirc);
             plot_cmd << " w circles lc rgb 'black' fs solid noborder";
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " u 1:2:3:4";
             plot_cmd << " w vectors";
-            plot_cmd << strfmt(" head size %lf,135", opt::Vcirc*3);
+            plot_cmd << strfmt(" head size %.12lg,135", opt::Vcirc*3);
             plot_cmd << " lc rgb 'black' lw 1.5";
         }
     }
-- 
2.43.0


From 247ad0dd9efc1cc37b159fca9e820ea6edf881c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 54/82] fix: vvplot --ref-xy b refuses problems without bodies

---
 utils/vvplot/vvplot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index d6246e2..837ae94 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -129,6 +129,8 @@ int main_hdf(int argc, char **argv)
 
     if (opt::ref_xy == 'o') {
         // do nothing
+    } else if (opt::ref_xy != 'f' && S.BodyList.empty()) {
+        throw std::invalid_argument("--ref-xy: there is no body to refer to");
     } else if (opt::ref_xy == 'f') {
         opt::rect.xmin += S.inf_marker.x;
         opt::rect.xmax += S.inf_marker.x;
-- 
2.43.0


From 03b402ea98ce374d6d7253bf48a7f668afcfb069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 55/82] fix: vvplot names the field file it can not read

---
 utils/vvplot/vvplot.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 837ae94..64dc13c 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -110,6 +110,17 @@ static std::string body_file_name(const Space& S, const TBody& body)
     return plain ? body.label : S.get_body_name(&body);
 }
 
+static XField* load_field(const char* filename)
+{
+    std::stringstream fbuf;
+    std::ifstream file(filename, std::ios::binary);
+    if (!file) {
+        throw std::runtime_error(std::string("Error opening '") + filename + "': " + strerror(errno));
+    }
+    fbuf << file.rdbuf();
+    return new XField(fbuf.str());
+}
+
 int main_hdf(int argc, char **argv)
 {
     Space S;
@@ -288,10 +299,7 @@ int main_hdf(int argc, char **argv)
         XField *field = nullptr;
 
         if (opt::load_field) {
-            std::stringstream fbuf;
-            std::ifstream file(opt::load_field, std::ios::binary);
-            fbuf << file.rdbuf();
-            field = new XField(fbuf.str());
+            field = load_field(opt::load_field);
         } else {
             XVelocity *ufield = new XVelocity(
                 S,
@@ -362,10 +370,7 @@ int main_hdf(int argc, char **argv)
         XField *field = nullptr;
 
         if (opt::load_field) {
-            std::stringstream fbuf;
-            std::ifstream file(opt::load_field, std::ios::binary);
-            fbuf << file.rdbuf();
-            field = new XField(fbuf.str());
+            field = load_field(opt::load_field);
         } else {
             XStreamfunction *sfield = new XStreamfunction(
                 S,
-- 
2.43.0


From 931939365cef91f8fcbf59e09ab01e78c0d7dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 56/82] fix: isolines with a step too small to be added are
 refused instead of never ending

---
 libvvhd/src/XIsoline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index f1ca96f..e77cbd3 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -34,6 +34,8 @@ XIsoline::XIsoline(
         throw std::invalid_argument("XIsoline(): vmin must be <= vmax");
     if (!(dv > 0))
         throw std::invalid_argument("XIsoline(): dv must be positive");
+    if (!(vmin + dv > vmin) || !(vmax + dv > vmax))
+        throw std::invalid_argument("XIsoline(): dv is too small");
 
     for (int i=0; i<field.xres-1; i++)
     {
-- 
2.43.0


From d1b23241bce7f80386a7b2bb09c95204132e8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 57/82] fix: vvplot reports the unknown option -n

---
 utils/vvplot/optparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvplot/optparse.cpp b/utils/vvplot/optparse.cpp
index b5ac195..bb5bd73 100644
--- a/utils/vvplot/optparse.cpp
+++ b/utils/vvplot/optparse.cpp
@@ -167,7 +167,7 @@ void opt::parse(int argc, char **argv) {
         /* getopt_long stores the option index here. */
         int option_index = 0;
 
-        int c = getopt_long(argc, argv, "nvhBVSGPU:x:y:s:", long_options, &option_index);
+        int c = getopt_long(argc, argv, "vhBVSGPU:x:y:s:", long_options, &option_index);
 
         if (c == -1) {
             break;
-- 
2.43.0


From 98d5c5d05db1973fc925ab87b0d818880f22f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 58/82] fix: vvplot draws fields of one value, velocities of
 one sign and empty plots

---
 utils/vvplot/vvplot.cpp | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 64dc13c..7b0467e 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -110,6 +110,17 @@ static std::string body_file_name(const Space& S, const TBody& body)
     return plain ? body.label : S.get_body_name(&body);
 }
 
+/* gnuplot can not draw a map with an empty range of values */
+static void widen_range(double& vmin, double& vmax)
+{
+    double scale = std::max(std::fabs(vmin), std::fabs(vmax));
+    double eps = scale > 0 ? 1e-3*scale : 1.0;
+    if (vmax - vmin < eps) {
+        vmin -= eps/2;
+        vmax += eps/2;
+    }
+}
+
 static XField* load_field(const char* filename)
 {
     std::stringstream fbuf;
@@ -233,6 +244,9 @@ int main_hdf(int argc, char **argv)
             float pmax = vrt.percentile(0.98);
             opt::Gmax = std::max(-pmin, pmax);
         }
+        if (opt::Gmax == 0) {
+            opt::Gmax = 1; // there is no vorticity
+        }
         gp << strfmt( "set cbrange [%lg:%lg]\n", -opt::Gmax, opt::Gmax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", -opt::Gmax);
         gp << strfmt( "set label 62 \"%.1lf\"\n", opt::Gmax);
@@ -275,6 +289,7 @@ int main_hdf(int argc, char **argv)
             ")" << std::endl;
         }
 
+        widen_range(opt::Pmin, opt::Pmax);
         gp << strfmt( "set cbrange [%lg:%lg]\n", opt::Pmin, opt::Pmax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", opt::Pmin);
         gp << strfmt( "set label 62 \"%.1lf\"\n", opt::Pmax);
@@ -324,12 +339,16 @@ int main_hdf(int argc, char **argv)
         if (!std::isfinite(opt::Umin)) opt::Umin = field->min();
         if (!std::isfinite(opt::Umax)) opt::Umax = field->max();
 
+        widen_range(opt::Umin, opt::Umax);
+        /* green is zero, or the middle of a range without zero in it */
+        bool with_zero = opt::Umin < 0 && opt::Umax > 0;
+        double Umid = with_zero ? 0.0 : (opt::Umin + opt::Umax)/2;
         gp << "set palette defined (" <<
-            opt::Umin/1 << " \"#0829d5\", " <<
-            opt::Umin/3 << " \"#1ffcff\", " <<
-                    0.0 << " \"#2ef62e\", " <<
-            opt::Umax/3 << " \"yellow\", " <<
-            opt::Umax/1 << " \"red\"" <<
+            opt::Umin << " \"#0829d5\", " <<
+            Umid + (opt::Umin - Umid)/3 << " \"#1ffcff\", " <<
+            Umid << " \"#2ef62e\", " <<
+            Umid + (opt::Umax - Umid)/3 << " \"yellow\", " <<
+            opt::Umax << " \"red\"" <<
         ")" << std::endl;
 
         gp << strfmt( "set cbrange [%lg:%lg]\n", opt::Umin, opt::Umax);
@@ -406,7 +425,9 @@ int main_hdf(int argc, char **argv)
         }
 
         std::stringstream bin_streamline;
-        bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
+        if (opt::Sstep > 0) { // there are no streamlines of fluid at rest
+            bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
+        }
         gp.add("streamlines", bin_streamline.str());
 
         plot_cmd << DELIMITER;
@@ -557,6 +578,9 @@ int main_hdf(int argc, char **argv)
     }
     #undef DELIMITER
 
+    if (!plot_cmd.tellp()) {
+        plot_cmd << "plot NaN"; // nothing but the frame
+    }
     gp << plot_cmd.str() << std::endl;
     if (opt::ofmt == ffmt::tar) {
         gp.save(opt::target);
@@ -592,7 +616,9 @@ int main_tar(int argc, char **argv)
         }
 
         std::stringstream bin_streamline;
-        bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
+        if (opt::Sstep > 0) {
+            bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
+        }
         gp.add("streamlines", bin_streamline.str());
     }
 
-- 
2.43.0


From b27a3dcd32ae91245e2cb10357eeb800df6bab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 59/82] fix: damaged files of the old format are refused

---
 libvvhd/src/TSpace_load_v13.cpp | 153 +++++++++++++++++++++-----------
 1 file changed, 99 insertions(+), 54 deletions(-)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index b6f1897..8b4853a 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -1,5 +1,11 @@
 #include "TSpace.hpp"
 
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
+#include <memory>
+#include <stdexcept>
+
 static int eq(const char *str1, const char *str2)
 {
     for (int i=0; i<8; i++)
@@ -9,14 +15,33 @@ static int eq(const char *str1, const char *str2)
     return 9;
 }
 
+static void read(FILE* file, void* data, size_t size)
+{
+    if (fread(data, 1, size, file) != size)
+        throw std::runtime_error("Error loading the space: unexpected end of file");
+}
+
+// The number of items of the given size that follow
+static int64_t read_count(FILE* file, int64_t item_size)
+{
+    int64_t count;
+    read(file, &count, 8);
+    int64_t pos = ftell(file);
+    fseek(file, 0, SEEK_END);
+    int64_t rest = ftell(file) - pos;
+    fseek(file, pos, SEEK_SET);
+    if (count < 0 || count > rest/item_size)
+        throw std::runtime_error("Error loading the space: unexpected end of file");
+    return count;
+}
+
 static void LoadList(std::vector<TObj> &list, FILE* fin)
 {
-    int64_t size;
-    (void)fread(&size, 8, 1, fin);
+    int64_t size = read_count(fin, 24);
     TObj obj;
     for (int64_t i=0; i<size; i++)
     {
-        fread(&obj, 24, 1, fin);
+        read(fin, &obj, 24);
         list.push_back(obj);
     }
 }
@@ -24,56 +49,71 @@ static void LoadList(std::vector<TObj> &list, FILE* fin)
 static void read_shell_script(FILE* file, TEval &script)
 {
     int32_t len;
-    fread(&len, 4, 1, file);
-    char str[len+1];
-    fread(&str, 1, len, file);
-    str[len] = 0;
-    script = str;
+    read(file, &len, 4);
+    std::string str;
+    for (int32_t i=0; i<len; i++)
+    {
+        char c;
+        read(file, &c, 1);
+        str.push_back(c);
+    }
+    script = std::string(str.c_str());
+}
+
+static void read_time(FILE* file, TTime &time)
+{
+    read(file, &time, 8);
+    if (time.timescale == 0)
+        throw std::runtime_error("Error loading the space: bad time");
 }
 
 void Space::load_v13(const char* fname)
 {
-    FILE *fin = fopen(fname, "rb");
-    if (!fin) { perror("Error loading the space"); return; }
+    std::unique_ptr<FILE, int(*)(FILE*)> file(fopen(fname, "rb"), fclose);
+    FILE *fin = file.get();
+    if (!fin)
+        throw std::runtime_error(std::string("Error loading the space: ") + strerror(errno));
+    if (fgetc(fin) == EOF)
+        return; // an empty file is an empty space
 
     //loading different lists
-    int64_t tmp = 0;
-    char comment[9] = {};
+    bool has_header = false;
     for (int i=0; i<64; i++)
     {
+        int64_t tmp = 0;
+        char comment[9] = {};
         fseek(fin, i*16, SEEK_SET);
-        fread(&tmp, 8, 1, fin);
-        fread(comment, 8, 1, fin);
+        read(fin, &tmp, 8);
+        read(fin, comment, 8);
         if (!tmp) continue;
-        fseek(fin, tmp, SEEK_SET);
+        if (fseek(fin, tmp, SEEK_SET) != 0)
+            throw std::runtime_error("Error loading the space: unexpected end of file");
 
         if (eq(comment, "Header  ")>8)
         {
-            char version[8]; fread(&version, 8, 1, fin);
+            char version[9] = {}; read(fin, version, 8);
             if (eq(version, "v: 1.3  ") <= 8)
-            {
-                fprintf(stderr, "Cant read binary file version \"%s\".\n", version);
-                exit(1);
-            }
+                throw std::runtime_error(std::string("Cant read binary file version \"") + version + "\"");
 
-            char name[64];
-            fread(name, 1, 64, fin);
+            has_header = true;
+            char name[65] = {};
+            read(fin, name, 64);
             caption = name;
-            fread(&time, 8, 1, fin);
-            fread(&dt, 8, 1, fin);
-            fread(&dt_save, 8, 1, fin);
-            fread(&dt_streak, 8, 1, fin);
-            fread(&dt_profile, 8, 1, fin);
-            fread(&re, 8, 1, fin);
-            fread(&pr, 8, 1, fin);
-            fread(&inf_marker, 16, 1, fin);
+            read_time(fin, time);
+            read_time(fin, dt);
+            read_time(fin, dt_save);
+            read_time(fin, dt_streak);
+            read_time(fin, dt_profile);
+            read(fin, &re, 8);
+            read(fin, &pr, 8);
+            read(fin, &inf_marker, 16);
             read_shell_script(fin, inf_vx);
             read_shell_script(fin, inf_vy);
-            fread(&inf_g, 8, 1, fin);
-            fread(&gravity, 16, 1, fin);
-            fread(&finish, 8, 1, fin);
+            read(fin, &inf_g, 8);
+            read(fin, &gravity, 16);
+            read(fin, &finish, 8);
 
-            int64_t rawtime; fread(&rawtime, 8, 1, fin);
+            int64_t rawtime; read(fin, &rawtime, 8);
         }
         else if (eq(comment, "Vortexes")>8) LoadList(VortexList, fin);
         else if (eq(comment, "Heat    ")>8) LoadList(HeatList, fin);
@@ -83,39 +123,41 @@ void Space::load_v13(const char* fname)
         {
             std::shared_ptr<TBody> body(new TBody());
 
-            fread(&body->holder, 24, 1, fin);
-            fread(&body->dpos, 24, 1, fin);
+            read(fin, &body->holder, 24);
+            read(fin, &body->dpos, 24);
             read_shell_script(fin, body->speed_x);
             read_shell_script(fin, body->speed_y);
             read_shell_script(fin, body->speed_o);
-            fread(&body->speed_slae, 24, 1, fin);
-            fread(&body->speed_slae_prev, 24, 1, fin);
+            read(fin, &body->speed_slae, 24);
+            read(fin, &body->speed_slae_prev, 24);
 
-            fread(&body->kspring, 24, 1, fin);
-            fread(&body->density, 8, 1, fin);
+            read(fin, &body->kspring, 24);
+            read(fin, &body->density, 8);
 
-            fread(&body->force_hydro, 24, 1, fin);
-            fread(&body->fdt_dead, 24, 1, fin);
-            fread(&body->friction_prev, 24, 1, fin);
+            read(fin, &body->force_hydro, 24);
+            read(fin, &body->fdt_dead, 24);
+            read(fin, &body->friction_prev, 24);
 
             BodyList.push_back(body);
         }
         else if (eq(comment, "Body    ")>8)
         {
+            if (BodyList.empty())
+                throw std::runtime_error("Error loading the space: segments without a body");
             auto body = BodyList.back();
 
             TAtt att(0.0, 0.0);
-            int64_t size; fread(&size, 8, 1, fin);
+            int64_t size = read_count(fin, 56);
             for (int64_t i=0; i<size; i++)
             {
                 int64_t bc, hc;
                 double heat_const;
-                fread(&att.corner, 16, 1, fin);
-                fread(&att.g, 8, 1, fin);
-                fread(&bc, 8, 1, fin);
-                fread(&hc, 8, 1, fin);
-                fread(&heat_const, 8, 1, fin);
-                fread(&att.gsum, 8, 1, fin);
+                read(fin, &att.corner, 16);
+                read(fin, &att.g, 8);
+                read(fin, &bc, 8);
+                read(fin, &hc, 8);
+                read(fin, &heat_const, 8);
+                read(fin, &att.gsum, 8);
                 att.heat_const = heat_const;
                 if (bc == 'l' || bc == 'n')
                     att.slip = bc == 'l';
@@ -140,12 +182,15 @@ void Space::load_v13(const char* fname)
             body->doFillProperties();
         }
         else {
-            fprintf(stderr, "S->Load(): ignoring field \"%s\"\n", comment);
-            exit(-1);
+            throw std::runtime_error(std::string("Error loading the space: unknown field \"") + comment + "\"");
         }
     }
 
-    EnumerateBodies();
+    if (!has_header)
+        throw std::runtime_error("Error loading the space: there is no header");
+    for (const std::shared_ptr<TBody>& lbody: BodyList)
+        if (lbody->alist.empty())
+            throw std::runtime_error("Error loading the space: body without segments");
 
-    return;
+    EnumerateBodies();
 }
-- 
2.43.0


From e373309081f3a6035fa64bcfcb825e74093b2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 60/82] fix: snapshots with contents of unexpected shape are
 refused

---
 libvvhd/src/TSpace_load_hdf.cpp | 68 +++++++++++++++++++++++++--------
 libvvhd/src/vvhdf.cpp           |  5 +++
 2 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index fba154a..456a6fd 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -5,6 +5,8 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <array>
+#include <cstring>
 #include <map>
 
 // body00, body01, ..., body99, body100, ...
@@ -15,6 +17,20 @@ struct body_name_less {
 };
 typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
+// The number of rows of a table with the given number of columns
+static hsize_t table_rows(hid_t h5d, hid_t h5s, const std::string& name, hsize_t columns)
+{
+    hsize_t dims[2] = {0, 0};
+    if (H5Sget_simple_extent_ndims(h5s) != 2 || H5Sget_simple_extent_dims(h5s, dims, NULL) < 0)
+        throw std::runtime_error("'" + name + "' is not a table");
+    if (dims[1] != columns)
+        throw std::runtime_error("'" + name + "' has a wrong number of columns");
+    // zlib reduces data 1032 times at most
+    if (dims[0] > (H5Dget_storage_size(h5d) + 8) * 1032)
+        throw std::runtime_error("'" + name + "' is incomplete");
+    return dims[0];
+}
+
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
     if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
@@ -28,8 +44,11 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
 
-    hsize_t dims1[2];
-    H5Sget_simple_extent_dims(h5s_file, dims1, dims1);
+    hsize_t dims1[2] = {table_rows(h5d, h5s_file, name, 3), 3};
+    if (dims1[0] == 0) {
+        H5Dclose(h5d);
+        return;
+    }
 
     hsize_t dims2[2] = {dims1[0]*2, dims1[1]};
     hid_t h5s_mem = H5Screate_simple(2, dims2, dims2);
@@ -62,9 +81,9 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     hid_t h5s_file = H5Dget_space(h5d);
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
-    hsize_t dims[2];
-    H5Sget_simple_extent_dims(h5s_file, dims, dims);
-    hsize_t N = dims[0];
+    hsize_t N = table_rows(h5d, h5s_file, name, 4);
+    if (N == 0)
+        throw std::runtime_error("'" + name + "' has no segments");
 
     body. label = h5a_read<std::string> (h5d, "label");
     body.holder = h5a_read<TVec3D> (h5d, "holder_position");
@@ -99,9 +118,9 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         body.root_body = body_map[root_name];
     }
 
-    double att_array[N][4] = {0};
-    uint32_t slip_array[N] = {0};
-    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    std::vector<std::array<double, 4>> att_array(N);
+    std::vector<uint32_t> slip_array(N);
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dread", name);
 
@@ -143,7 +162,15 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
             hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array);
+            if (aid < 0)
+                h5_throw("H5Aopen", name);
+            hid_t h5s_slip = H5Aget_space(aid);
+            if (H5Sget_simple_extent_npoints(h5s_slip) != (hssize_t)N)
+                throw std::runtime_error("'" + name + "' has a wrong number of slip conditions");
+            err = H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data());
+            if (err < 0)
+                h5_throw("H5Aread", name);
+            H5Sclose(h5s_slip);
             H5Aclose(aid);
         }
         else
@@ -206,20 +233,28 @@ static void dataset_read_friction(hid_t fid, std::string name, TBody& body)
 static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void *op_data)
 {
     body_map_t& body_map = *(body_map_t*)op_data;
-    if (std::string(name, 4) == "body") {
+    if (strncmp(name, "body", 4) == 0) {
         body_map[name] = std::make_shared<TBody>();
     }
     return 0;
 }
 
+static TTime read_time(hid_t fid, const char* name)
+{
+    TTime time = h5a_read<TTime> (fid, name);
+    if (time.timescale == 0)
+        throw std::runtime_error(std::string("Bad value of '") + name + "'");
+    return time;
+}
+
 void Space::load_hdf(int64_t fid, metainfo_t *info)
 {
     caption = h5a_read<std::string> (fid, "caption");
-    time = h5a_read<TTime> (fid, "time");
-    dt = h5a_read<TTime> (fid, "dt");
-    dt_save = h5a_read<TTime> (fid, "dt_save");
-    dt_streak = h5a_read<TTime> (fid, "dt_streak");
-    dt_profile = h5a_read<TTime> (fid, "dt_profile");
+    time = read_time(fid, "time");
+    dt = read_time(fid, "dt");
+    dt_save = read_time(fid, "dt_save");
+    dt_streak = read_time(fid, "dt_streak");
+    dt_profile = read_time(fid, "dt_profile");
     re = h5a_read<double> (fid, "re");
     pr = h5a_read<double> (fid, "pr");
     inf_marker = h5a_read<TVec> (fid, "inf_marker");
@@ -244,7 +279,8 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     dataset_read_list(fid, "source", SourceList);
 
     body_map_t body_map;
-    H5Literate(fid, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, list_bodies, &body_map);
+    if (H5Literate(fid, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, list_bodies, &body_map) < 0)
+        h5_throw("H5Literate", "body");
 
     for (const auto& pair: body_map) {
         const std::string& name = pair.first;
diff --git a/libvvhd/src/vvhdf.cpp b/libvvhd/src/vvhdf.cpp
index 8796dc8..2ea10a5 100644
--- a/libvvhd/src/vvhdf.cpp
+++ b/libvvhd/src/vvhdf.cpp
@@ -32,6 +32,11 @@ T h5a_read(hid_t hid, const char* name) {
     if (aid < 0)
         h5_throw("H5Aopen", name);
 
+    hid_t h5s = H5Aget_space(aid);
+    if (H5Sget_simple_extent_npoints(h5s) != 1)
+        throw std::runtime_error(std::string("Attribute '") + name + "' is not a single value");
+    H5Sclose(h5s);
+
     T ret = T();
     herr_t err = H5Aread(aid, h5t<T>::id, &ret);
     if (err < 0)
-- 
2.43.0


From 54012bce5898d47e0f0385bba4b14ae0ea5dc8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 61/82] fix: bodies of many segments do not overflow the stack
 when saved

---
 libvvhd/src/TSpace_save_hdf.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index b26f1b3..b4d3ff9 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <array>
 #include <map>
 
 
@@ -56,13 +57,12 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     hsize_t N = body.size();
     hsize_t dims[2] = {N, 4};
 
-    double att_array[N][4] = {0};
+    std::vector<std::array<double, 4>> att_array(N);
 
     uint32_t general_slip = body.alist.front().slip;
-    uint32_t slip_array[N] = {0};
+    std::vector<uint32_t> slip_array(N);
 
     float heat_const = body.alist.front().heat_const;
-    float heat_array[N] = {0};
 
     for (hsize_t i=0; i<N; i++) {
         const TAtt& att = body.alist[i];
@@ -71,7 +71,6 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         att_array[i][2] = att.g;
         att_array[i][3] = att.gsum;
         slip_array[i] = att.slip;
-        heat_array[i] = att.heat_const;
 
         can_simplify_slip &= (att.slip == general_slip);
         can_simplify_heat &= (att.heat_const == heat_const);
@@ -101,7 +100,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         if (aid < 0)
             h5_throw("H5Acreate", name);
 
-        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array);
+        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array.data());
         if (err < 0)
             h5_throw("H5Awrite", name);
 
@@ -154,7 +153,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<bc_t> (h5d, "boundary_condition", body.boundary_condition);
     h5a_write<hc_t> (h5d, "heat_condition", body.heat_condition);
 
-    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dwrite", name);
     err = H5Dclose(h5d);
-- 
2.43.0


From 2eb1c3cd0a23eaadfd6a23ae76c9cd1e8df7a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 62/82] fix: a refused file leaves no half-loaded problem
 behind

---
 libvvhd/headers/TSpace.hpp |  1 +
 libvvhd/src/TSpace.cpp     | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/libvvhd/headers/TSpace.hpp b/libvvhd/headers/TSpace.hpp
index cf70e69..a85247e 100644
--- a/libvvhd/headers/TSpace.hpp
+++ b/libvvhd/headers/TSpace.hpp
@@ -48,6 +48,7 @@ class Space
         void load(const char* filename, metainfo_t *info = NULL);
         void save_hdf(int64_t fid);
         void load_hdf(int64_t fid, metainfo_t *info = NULL);
+        void clear();
         void load_v13(const char* filename); // deprecated format (for compatibility)
         FILE* open_file(const char* format);
     
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index e2f3ecc..3af1915 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -35,7 +35,7 @@ Space::Space():
     StreakList()
 {}
 
-void Space::load(const char* fname, metainfo_t *info)
+void Space::clear()
 {
     BodyList.clear();
     VortexList.clear();
@@ -43,11 +43,21 @@ void Space::load(const char* fname, metainfo_t *info)
     SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
+}
+
+void Space::load(const char* fname, metainfo_t *info)
+{
+    clear();
 
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
     if (H5Fis_hdf5(fname) == 0)
     {
-        load_v13(fname);
+        try {
+            load_v13(fname);
+        } catch (...) {
+            clear();
+            throw;
+        }
         return;
     }
 
@@ -55,7 +65,13 @@ void Space::load(const char* fname, metainfo_t *info)
     if (fid < 0)
         h5_throw("H5Fopen", fname);
 
-    load_hdf(fid, info);
+    try {
+        load_hdf(fid, info);
+    } catch (...) {
+        clear();
+        H5Fclose(fid);
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
-- 
2.43.0


From ffbbc82f6b75a6e5d26ff10e4ff17a5ab458d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 63/82] fix: bodies without segments or with a special segment
 out of range are refused

---
 libvvhd/src/TSpace.cpp  | 2 ++
 utils/vvflow/vvflow.cpp | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 3af1915..9a5e877 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -93,6 +93,8 @@ void Space::save(const char* format)
     for (std::shared_ptr<TBody>& lbody: BodyList)
     {
         lbody->validate(/*critical=*/true);
+        if (lbody->alist.empty())
+            throw std::invalid_argument("A body without segments can not be saved");
         std::shared_ptr<TBody> root_body = lbody->root_body.lock();
         if (root_body && std::find(BodyList.begin(), BodyList.end(), root_body) == BodyList.end())
             throw std::invalid_argument("The root of a body must belong to the same space");
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 827905c..7c40346 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -215,8 +215,12 @@ int simulate (lua_State *L) {
     return lua_error(L);
 }
 
-static void check_links(const Space &S) {
+static void check_bodies(const Space &S) {
     for (const shared_ptr<TBody>& lbody: S.BodyList) {
+        if (lbody->alist.empty())
+            throw std::invalid_argument("a body has no segments");
+        if (lbody->special_segment_no < 0 || lbody->special_segment_no >= (int64_t)lbody->size())
+            throw std::invalid_argument("special_segment is not a segment of the body");
         size_t depth = 0;
         for (shared_ptr<TBody> root = lbody->root_body.lock(); root; root = root->root_body.lock()) {
             if (std::find(S.BodyList.begin(), S.BodyList.end(), root) == S.BodyList.end())
@@ -228,7 +232,7 @@ static void check_links(const Space &S) {
 }
 
 static void simulate_space(Space &S) {
-    check_links(S);
+    check_bodies(S);
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
-- 
2.43.0


From 02e8b10aa4ce44784f6ba9a2251d78657e61a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 64/82] fix: area, centre and inertia of bodies far from (0, 0)
 keep their precision

---
 libvvhd/src/TBody.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index f98873f..59c0770 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -295,12 +295,18 @@ void TBody::doFillProperties()
         return;
     }
 
+    // far from (0, 0) integrals around it lose precision
+    TVec origin = TVec(0., 0.);
+    for (const auto& latt: alist)
+        origin += latt.corner;
+    origin = origin / double(alist.size());
+
     alist.push_back(alist.front());
     for (auto latt=alist.begin(); latt<alist.end()-1; latt++)
     {
         _slip = _slip || latt->slip;
         _slen+= latt->dl.abs();
-        _area+= latt->r.y*latt->dl.x;
+        _area+= (latt->r.y - origin.y)*latt->dl.x;
 
     }
 
@@ -315,16 +321,18 @@ void TBody::doFillProperties()
         _moi_cofm = 0.;
     } else {
         TVec _3S_cofm = TVec(0., 0.);
-        double _12moi_0 = 0.; // 12 * moment of inertia around point (0, 0)
+        double _12moi_0 = 0.; // 12 * moment of inertia around the origin
 
         for (auto latt=alist.begin(); latt<alist.end()-1; latt++) {
-            _3S_cofm-= latt->r * (rotl(latt->corner) * (latt+1)->corner);
-            _12moi_0 -= (latt->corner.abs2() + latt->corner*(latt+1)->corner + (latt+1)->corner.abs2())
-                *  (rotl(latt->corner) * (latt+1)->corner);
+            TVec c0 = latt->corner - origin;
+            TVec c1 = (latt+1)->corner - origin;
+            _3S_cofm-= (c0 + c1) * 0.5 * (rotl(c0) * c1);
+            _12moi_0 -= (c0.abs2() + c0*c1 + c1.abs2()) * (rotl(c0) * c1);
         }
 
         _cofm = _3S_cofm/(3*_area);
         _moi_cofm = _12moi_0/12. - _area*_cofm.abs2();
+        _cofm += origin;
     }
 
     alist.pop_back();
-- 
2.43.0


From 714cd091a5c4e5dd045ac68227b2440ccbc55b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 65/82] fix: a file is closed also after it was refused

---
 libvvhd/src/TSpace.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 9a5e877..6e013ce 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -45,6 +45,18 @@ void Space::clear()
     StreakList.clear();
 }
 
+// A file is closed with everything in it, even if reading or writing was interrupted
+static hid_t h5p_file_access()
+{
+    static hid_t h5p = H5I_INVALID_HID;
+    if (h5p < 0)
+    {
+        h5p = H5Pcreate(H5P_FILE_ACCESS);
+        H5Pset_fclose_degree(h5p, H5F_CLOSE_STRONG);
+    }
+    return h5p;
+}
+
 void Space::load(const char* fname, metainfo_t *info)
 {
     clear();
@@ -61,7 +73,7 @@ void Space::load(const char* fname, metainfo_t *info)
         return;
     }
 
-    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT);
+    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, h5p_file_access());
     if (fid < 0)
         h5_throw("H5Fopen", fname);
 
@@ -102,11 +114,16 @@ void Space::save(const char* format)
 
     std::string fname = format_filename(format, int(time/dt+0.5));
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, h5p_file_access());
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
-    save_hdf(fid);
+    try {
+        save_hdf(fid);
+    } catch (...) {
+        H5Fclose(fid);
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
-- 
2.43.0


From 5f5ddffe629dbfe1355b7a233d31cdac2bb8a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 66/82] fix: vvawk accepts limits of zero and works with mawk

---
 utils/scripts/vvawk.ampl  | 4 ++--
 utils/scripts/vvawk.avg   | 4 ++--
 utils/scripts/vvawk.sd    | 6 +++---
 utils/scripts/vvawk.zeros | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 8052370..5efbd66 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -11,8 +11,8 @@ BEGIN{
     }
     col =  col ? col+0 : 2
     span = span ? span+0. : 5
-    xmin = xmin ? xmin+0. : -1e400
-    xmax = xmax ? xmax+0. : +1e400
+    xmin = (xmin != "") ? xmin+0. : log(0)
+    xmax = (xmax != "") ? xmax+0. : -log(0)
     smax = smin = 0
     nmax = nmin = 0
 }
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 8adaa8b..fbd6b93 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -11,8 +11,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = (xmin != "") ? xmin+0. : log(0)
+	xmax = (xmax != "") ? xmax+0. : -log(0)
 }
 
 {
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index a57418f..aa0eeb3 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -12,14 +12,14 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = (xmin != "") ? xmin+0. : log(0)
+	xmax = (xmax != "") ? xmax+0. : -log(0)
 }
 
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
-		sum2+= $col**2;
+		sum2+= $col^2;
 		n++;
 	}
 }
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 62cd12a..4c46a94 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -9,8 +9,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = (xmin != "") ? xmin+0. : log(0)
+	xmax = (xmax != "") ? xmax+0. : -log(0)
 	yprev = 0
 }
 
-- 
2.43.0


From 9d0e2f86528b0ea635c8806f84c17d715f88bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 67/82] fix: vvawk.ampl finds the centre of windows of odd span

---
 utils/scripts/vvawk.ampl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 5efbd66..a609e59 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -28,7 +28,7 @@ BEGIN{
         next;
 
     # берём точку по центру окна
-    c = (NR-span/2)%span
+    c = (NR-int(span/2))%span
     yc = y[c]
     xc = x[c]
 
-- 
2.43.0


From 7916d124e34549a727ef205e23136149a92eb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 68/82] fix: vvawk.sd of equal values is zero

---
 utils/scripts/vvawk.sd | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index aa0eeb3..b2e4b36 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -26,5 +26,6 @@ BEGIN{
 
 END {
 	nn = (n>0) ? 1.0/n : 0
-	printf "%.6e\n", sqrt(sum2*nn-(sum*nn)^2)
+	var = sum2*nn-(sum*nn)^2
+	printf "%.6e\n", (var>0) ? sqrt(var) : 0
 }
-- 
2.43.0


From c11baf4a5606e97e0aaa7e3cf0f5769454f00948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 69/82] fix: vvawk does not take header lines for data

---
 utils/scripts/vvawk.ampl  | 10 +++++++---
 utils/scripts/vvawk.avg   |  2 ++
 utils/scripts/vvawk.drv   |  5 ++++-
 utils/scripts/vvawk.mavg  |  7 +++++--
 utils/scripts/vvawk.sd    |  2 ++
 utils/scripts/vvawk.zeros |  2 ++
 6 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index a609e59..b1f288f 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -17,18 +17,22 @@ BEGIN{
     nmax = nmin = 0
 }
 
+/^[ \t]*#/ { next }
+
 {
+    row++
+
     # круговой буффер
-    mod = NR%span
+    mod = row%span
     y[mod] = $col
     x[mod] = $1
 
     # пока буффер не наполнился - наполняем
-    if(NR<span)
+    if(row<span)
         next;
 
     # берём точку по центру окна
-    c = (NR-int(span/2))%span
+    c = (row-int(span/2))%span
     yc = y[c]
     xc = x[c]
 
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index fbd6b93..37b992d 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -15,6 +15,8 @@ BEGIN{
 	xmax = (xmax != "") ? xmax+0. : -log(0)
 }
 
+/^[ \t]*#/ { next }
+
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.drv b/utils/scripts/vvawk.drv
index 47aba93..522029b 100755
--- a/utils/scripts/vvawk.drv
+++ b/utils/scripts/vvawk.drv
@@ -12,9 +12,12 @@ BEGIN{
     div = div ? div+0. : 1
 }
 
+/^[ \t]*#/ { print; next }
+
 {
+    row++
     ycurr = $col
-    if (NR == 1) {
+    if (row == 1) {
         yprev = ycurr
         next
     }
diff --git a/utils/scripts/vvawk.mavg b/utils/scripts/vvawk.mavg
index 6de8e8a..42d75a5 100755
--- a/utils/scripts/vvawk.mavg
+++ b/utils/scripts/vvawk.mavg
@@ -13,10 +13,13 @@ BEGIN{
     span = span ? span+0 : 20
 }
 
+/^[ \t]*#/ { print; next }
+
 {
+    row++
     # circular index
-    mod = NR % span
-    if (NR<=span) count++
+    mod = row % span
+    if (row<=span) count++
     else sum -= array[mod]
     sum+= $col
     array[mod]=$col
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index b2e4b36..cd78182 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -16,6 +16,8 @@ BEGIN{
 	xmax = (xmax != "") ? xmax+0. : -log(0)
 }
 
+/^[ \t]*#/ { next }
+
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 4c46a94..f5d8d5c 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -18,6 +18,8 @@ function abs(v) {
 	return v < 0 ? -v : v
 }
 
+/^[ \t]*#/ { next }
+
 {
 	xcurr = $1
 	ycurr = $col
-- 
2.43.0


From 07407780cbd2ca9ba4120f4d9ca1d8f7097a335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 70/82] fix: gpquick writes to files with quotes in their names

---
 utils/scripts/gpquick | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/scripts/gpquick b/utils/scripts/gpquick
index cc25162..ca5c0e2 100755
--- a/utils/scripts/gpquick
+++ b/utils/scripts/gpquick
@@ -103,7 +103,10 @@ def main():
     gpw("""set terminal pngcairo enhanced""")
     gpw(""" size {}, {};\n""", args.size[0], args.size[1])
     if args.output is not None:
-        gpw("""set output '{}';\n""", args.output)
+        quoted = "'" + args.output + "'"
+        if "'" in args.output:
+            quoted = '"' + "".join("\\" + c if c in '\\"`' else c for c in args.output) + '"'
+        gpw("""set output {};\n""", quoted)
 
     gpw("""unset key;\n""")
     if args.plot_square:
-- 
2.43.0


From 040fff60a8da4986e3fbf979bbd7e0480f88f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 71/82] fix: vvencode accepts names with spaces and reports
 missing arguments

---
 utils/scripts/vvencode | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/scripts/vvencode b/utils/scripts/vvencode
index c1c010a..b1a51b4 100755
--- a/utils/scripts/vvencode
+++ b/utils/scripts/vvencode
@@ -1,16 +1,16 @@
 #!/bin/bash
 
-if [[ $# < 2 ]]; then
-	echo "Usage: vvencode FILEMASK OUTPUT"
-	exit 0
+if [[ $# -lt 2 ]]; then
+	echo "Usage: vvencode FILEMASK OUTPUT" >&2
+	exit 1
 fi
 
 GLOB=$1
 OUTPUT=$2
-FIRSTFILE=$(ls $1 | head -n1)
-COMMENT="$(exiv2 -P t -bg Exif.Photo.UserComment $FIRSTFILE)"
-echo $FIRSTFILE "$COMMENT"
+IFS= read -r FIRSTFILE < <(compgen -G "$GLOB" | LC_ALL=C sort)
+COMMENT="$(exiv2 -P t -bg Exif.Photo.UserComment "$FIRSTFILE")"
+echo "$FIRSTFILE" "$COMMENT"
 ffmpeg -pattern_type glob -i "$GLOB" \
 	-r 25 -c:v libx264 -crf 28 -pix_fmt yuv420p -bf 0 \
 	-metadata comment="$COMMENT" $3 \
-	$OUTPUT
+	"$OUTPUT"
-- 
2.43.0


From fb95e60c85cf36fb51397a19b2980c6dad9cae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 72/82] fix: isolines of a level that is met exactly at grid
 nodes

---
 libvvhd/src/XIsoline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index e77cbd3..e4da2e9 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -72,7 +72,8 @@ XIsoline::XIsoline(
 inline static
 bool inrange(float z1, float z2, float c)
 {
-    return (z1 <= c && c < z2) || (z1 >= c && c > z2);
+    // must not depend on direction: neighbour cells pass their common edge both ways
+    return (z1 < c) != (z2 < c);
 }
 
 void XIsoline::merge_lines(TLine* dst, bool dst_side)
-- 
2.43.0


From e56c56e78b7c6556d675b49adaf434692103c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 73/82] fix: reading the slip of a body without segments

---
 utils/vvflow/lua_tbody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 1c90f8b..2a397e3 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -27,7 +27,7 @@ int luavvd_setslip(lua_State *L) {
 int luavvd_getslip(lua_State *L) {
     TBody* body = (TBody*)lua_touserdata(L, 1);
 
-    uint32_t slip = body->alist.begin()->slip;
+    uint32_t slip = body->alist.empty() ? 0 : body->alist.front().slip;
     for (auto& latt: body->alist) {
         if (latt.slip != slip) {
             lua_pushnil(L);
-- 
2.43.0


From 4d4553d8708bdacd1e038f5a9ad61e468ea8f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 74/82] fix: special_segment is refused when it does not fit

---
 utils/vvflow/getset.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 6054ffe..bcbd8a0 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -26,6 +26,10 @@ int luavvd_setint32(lua_State *L) {
         lua_pushfstring(L, "integer expected, got %s", luaL_typename(L, 2));
         return 1;
     }
+    if (val != (int32_t)val) {
+        lua_pushfstring(L, "integer expected, got a number out of range");
+        return 1;
+    }
 
     *num = val;
     return 0;
-- 
2.43.0


From da9e78555caee2890c0e5cd7d38b29181470820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 75/82] fix: vvflow reports sensors it can not write or read

---
 utils/vvflow/sensors.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/sensors.cpp b/utils/vvflow/sensors.cpp
index 20c3b48..c25126d 100644
--- a/utils/vvflow/sensors.cpp
+++ b/utils/vvflow/sensors.cpp
@@ -30,7 +30,9 @@ sensors::sensors(Space* S, MConvectiveFast *conv, const char* sensors_file, cons
 	slist()
 {
 	loadFile(sensors_file);
-	if (slist.size()) fout = fopen(output, "a");
+	if (slist.empty()) return;
+	fout = fopen(output, "a");
+	if (!fout) throw std::runtime_error(std::string("can not write '") + output + "' (" + strerror(errno) + ")");
 }
 
 sensors::~sensors()
@@ -52,7 +54,9 @@ void sensors::loadFile(const char* file)
 		slist.push_back(vec);
 	}
 
+	bool fail = ferror(fin);
 	fclose(fin);
+	if (fail) throw std::runtime_error(std::string("can not read '") + file + "'");
 }
 
 void sensors::output()
@@ -66,5 +70,5 @@ void sensors::output()
 		fprintf(fout, " \t%lg \t%lg", tmp.x, tmp.y);
 	}
 	fprintf(fout, "\n");
-	fflush(fout);
+	if (fflush(fout) || ferror(fout)) throw std::runtime_error(std::string("can not write sensors (") + strerror(errno) + ")");
 }
-- 
2.43.0


From 11d4d1ab59f33a5b2159e89d111404fbe8d40ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 76/82] fix: the special segment of a body in a file of the old
 format is loaded

---
 libvvhd/src/TSpace_load_v13.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index 8b4853a..21a0d10 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -165,8 +165,8 @@ void Space::load_v13(const char* fname)
                     switch (bc)
                     {
                         case 's': 
-                        case 'i': body->boundary_condition = bc_t::steady; break;
-                        case 'z': body->boundary_condition = bc_t::kutta; break;
+                        case 'i': body->boundary_condition = bc_t::steady; body->special_segment_no = i; break;
+                        case 'z': body->boundary_condition = bc_t::kutta; body->special_segment_no = i; break;
                     }
                 switch (hc)
                 {
-- 
2.43.0


From 608d87f1a8ceaa8d2b440c96c1bc8f7268b77e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 77/82] fix: negative spring constants in a file of the old
 format mean rigid bodies

---
 libvvhd/src/TSpace_load_v13.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index 21a0d10..59cce33 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -193,4 +193,7 @@ void Space::load_v13(const char* fname)
             throw std::runtime_error("Error loading the space: body without segments");
 
     EnumerateBodies();
+    // negative spring constants stood for rigid bodies
+    for (const std::shared_ptr<TBody>& lbody: BodyList)
+        lbody->validate(/*critical=*/false);
 }
-- 
2.43.0


From d09760e987dbc6f86d9ea1832de810d0818c3c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 78/82] fix: a snapshot without limits of collisions is loaded
 without them

---
 libvvhd/src/TSpace_load_hdf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 456a6fd..46fa383 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -104,8 +104,11 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     body.fdt_dead = h5a_read<TVec3D> (h5d, "fdt_dead");
     body.g_dead = h5a_read<double> (h5d, "g_dead");
 
-    body.collision_min = h5a_read<TVec3D> (h5d, "collision_min");
-    body.collision_max = h5a_read<TVec3D> (h5d, "collision_max");
+    // no limits by default
+    if (H5Aexists(h5d, "collision_min") > 0)
+        body.collision_min = h5a_read<TVec3D> (h5d, "collision_min");
+    if (H5Aexists(h5d, "collision_max") > 0)
+        body.collision_max = h5a_read<TVec3D> (h5d, "collision_max");
     body.bounce = h5a_read<double> (h5d, "bounce");
 
     std::string root_name = h5a_read<std::string> (h5d, "root_body");
-- 
2.43.0


From d02edc36006ca115ccfe3c007048c7d49ea41bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 79/82] fix: particles at infinity do not exhaust the memory

---
 libvvhd/src/TSortedTree.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libvvhd/src/TSortedTree.cpp b/libvvhd/src/TSortedTree.cpp
index be03672..a9e2f77 100644
--- a/libvvhd/src/TSortedTree.cpp
+++ b/libvvhd/src/TSortedTree.cpp
@@ -2,6 +2,7 @@
 
 // #include <string>
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 
@@ -35,6 +36,13 @@ snode::~snode()
 
 void TSortedNode::DivideNode()
 {
+    // halves of an infinite node are as large as the node itself
+    if ( !std::isfinite(h) || !std::isfinite(w) )
+    {
+        parent->bottomNodes.push_back(this);
+        return;
+    }
+
     if ( std::max(h,w) < parent->maxNodeSize )
         if ( std::min(h,w) <= parent->minNodeSize )
         {
-- 
2.43.0


From 2de093ffd53eb289258867bafeabcb11b9c68bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:57 +0000
Subject: [PATCH 80/82] fix: an append with a bad particle appends nothing

---
 utils/vvflow/lua_objlist.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index fb5d641..2845f86 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -10,11 +10,13 @@ using std::vector;
 
 static int objlist_append(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
+    const size_t old_size = li->size();
     int isobj;
 
     for (int i=2; i<=lua_gettop(L); i++) {
         TObj obj = lua_toTObjx(L, i, &isobj);
         if (!isobj) {
+            li->erase(li->begin() + old_size, li->end()); // all or nothing
             luaL_argerror(L, i, "expected TObj");
         }
         li->push_back(obj);
-- 
2.43.0


From a7cbc978127af3f796bf366fb76737beec4e1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 81/82] fix: generators leave the table of parameters as it is

---
 utils/vvflow/gen_body.cpp          | 16 ++++++++++++++++
 utils/vvflow/gen_body.h            |  2 ++
 utils/vvflow/gen_box.cpp           |  2 +-
 utils/vvflow/gen_cylinder.cpp      |  4 ++--
 utils/vvflow/gen_ellipse.cpp       |  2 +-
 utils/vvflow/gen_gis.cpp           |  2 +-
 utils/vvflow/gen_parallelogram.cpp |  2 +-
 utils/vvflow/gen_plate.cpp         |  2 +-
 utils/vvflow/gen_savonius.cpp      |  2 +-
 9 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/utils/vvflow/gen_body.cpp b/utils/vvflow/gen_body.cpp
index 8b9fe84..c5bf895 100644
--- a/utils/vvflow/gen_body.cpp
+++ b/utils/vvflow/gen_body.cpp
@@ -6,6 +6,22 @@
 #include <cstdio>
 #include <cstring>
 
+// get_param() takes the parameters out of the table, which must stay as it is for the caller
+void copy_params(lua_State *L) {
+    luaL_checktype(L, 1, LUA_TTABLE);
+
+    lua_newtable(L);
+    lua_pushnil(L);
+    while (lua_next(L, 1)) {
+        lua_pushvalue(L, -2);
+        lua_insert(L, -2);
+        lua_rawset(L, -4);
+    }
+    if (lua_getmetatable(L, 1))
+        lua_setmetatable(L, -2);
+    lua_replace(L, 1);
+}
+
 lua_Number get_param(
     lua_State *L,
     const char* param,
diff --git a/utils/vvflow/gen_body.h b/utils/vvflow/gen_body.h
index 31b9053..281d120 100644
--- a/utils/vvflow/gen_body.h
+++ b/utils/vvflow/gen_body.h
@@ -3,6 +3,8 @@
 #include <vector>
 #include <limits>
 
+void copy_params(lua_State *L);
+
 lua_Number get_param(
     lua_State *L,
     const char* param,
diff --git a/utils/vvflow/gen_box.cpp b/utils/vvflow/gen_box.cpp
index 7084c4c..55a3fac 100644
--- a/utils/vvflow/gen_box.cpp
+++ b/utils/vvflow/gen_box.cpp
@@ -8,7 +8,7 @@ static const auto dblmin = numeric_limits<lua_Number>::min();
 static const auto dbleps = numeric_limits<lua_Number>::epsilon();
 
 int luavvd_gen_chamber_box(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Number  dln=0.0;
     lua_Number  dls=0.0;
diff --git a/utils/vvflow/gen_cylinder.cpp b/utils/vvflow/gen_cylinder.cpp
index be90d73..3780f54 100644
--- a/utils/vvflow/gen_cylinder.cpp
+++ b/utils/vvflow/gen_cylinder.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_cylinder(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
@@ -49,7 +49,7 @@ int luavvd_gen_cylinder(lua_State *L) {
 }
 
 int luavvd_gen_semicyl(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Integer N = 0;
     lua_Number  dl = 0.0;
diff --git a/utils/vvflow/gen_ellipse.cpp b/utils/vvflow/gen_ellipse.cpp
index 862759d..656443b 100644
--- a/utils/vvflow/gen_ellipse.cpp
+++ b/utils/vvflow/gen_ellipse.cpp
@@ -5,7 +5,7 @@
 #include "elementary.h"
 
 int luavvd_gen_ellipse(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
diff --git a/utils/vvflow/gen_gis.cpp b/utils/vvflow/gen_gis.cpp
index 66ae735..16d4bcb 100644
--- a/utils/vvflow/gen_gis.cpp
+++ b/utils/vvflow/gen_gis.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_chamber_gpj(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Number  dln=0.0;
     lua_Number  dls=0.0;
diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 1143b5e..72d2508 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_parallelogram(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index c8b86bf..d168537 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_plate(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
diff --git a/utils/vvflow/gen_savonius.cpp b/utils/vvflow/gen_savonius.cpp
index 8259c64..f6f15fa 100644
--- a/utils/vvflow/gen_savonius.cpp
+++ b/utils/vvflow/gen_savonius.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_savonius(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    copy_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
-- 
2.43.0


From f8eab9411a3749a97cd0cabd89a267b9d1e36535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 82/82] fix: a collision is stored in the snapshot of its step,
 so that a run can be continued from it

---
 libvvhd/headers/TBody.hpp       |  2 ++
 libvvhd/src/TBody.cpp           |  2 ++
 libvvhd/src/TSpace_load_hdf.cpp |  1 +
 libvvhd/src/TSpace_save_hdf.cpp |  2 ++
 utils/vvflow/vvflow.cpp         | 15 +++++++++++++++
 5 files changed, 22 insertions(+)

diff --git a/libvvhd/headers/TBody.hpp b/libvvhd/headers/TBody.hpp
index d67231e..cfe59c6 100644
--- a/libvvhd/headers/TBody.hpp
+++ b/libvvhd/headers/TBody.hpp
@@ -85,6 +85,8 @@ class TBody
         TVec3D collision_min;
         TVec3D collision_max;
         double bounce;
+        // the limit the body has run into in the last step: 0 - none, 1 - r.x, 2 - r.y, 3 - o
+        uint32_t collision;
 
         //double kx, ky, ka;
         double density; //in doc rho_b/rho_0
diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 59c0770..86b8fc7 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -24,6 +24,7 @@ TBody::TBody():
     collision_min(NaN, NaN, NaN),
     collision_max(NaN, NaN, NaN),
     bounce(),
+    collision(),
 
     density(1.0),
     special_segment_no(0),
@@ -75,6 +76,7 @@ TBody& TBody::operator= (const TBody& copy)
     collision_min = copy.collision_min;
     collision_max = copy.collision_max;
     bounce = copy.bounce;
+    collision = copy.collision;
     density = copy.density;
     special_segment_no = copy.special_segment_no;
     boundary_condition = copy.boundary_condition;
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 46fa383..1adce79 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -110,6 +110,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     if (H5Aexists(h5d, "collision_max") > 0)
         body.collision_max = h5a_read<TVec3D> (h5d, "collision_max");
     body.bounce = h5a_read<double> (h5d, "bounce");
+    body.collision = h5a_read<uint32_t> (h5d, "collision");
 
     std::string root_name = h5a_read<std::string> (h5d, "root_body");
     if (root_name.empty()) {
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index b4d3ff9..17e834c 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -143,6 +143,8 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<TVec3D> (h5d, "collision_min", body.collision_min);
     h5a_write<TVec3D> (h5d, "collision_max", body.collision_max);
     h5a_write<double> (h5d, "bounce", body.bounce);
+    if (body.collision)
+        h5a_write<uint32_t> (h5d, "collision", body.collision);
 
     h5a_write<double> (h5d, "area", body.get_area());
     h5a_write<TVec> (h5d, "cofm", body.get_cofm());
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 7c40346..2a69562 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -261,7 +261,14 @@ static void simulate_space(Space &S) {
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
 
+    // bodies remember a collision of the last step, even in a snapshot
     const void* collision = nullptr;
+    for (const shared_ptr<TBody>& lbody: S.BodyList) {
+        const double* kspring[] = {&lbody->kspring.r.x, &lbody->kspring.r.y, &lbody->kspring.o};
+        if (lbody->collision >= 1 && lbody->collision <= 3)
+            collision = kspring[lbody->collision-1];
+    }
+
     while (S.time < S.finish + S.dt/2)
     {
         if (S.BodyList.size())
@@ -306,6 +313,14 @@ static void simulate_space(Space &S) {
         dbg(tr.destroy());
 
         dbg(flowmove.move_and_clean(true, &collision));
+        for (const shared_ptr<TBody>& lbody: S.BodyList) {
+            const double* kspring[] = {&lbody->kspring.r.x, &lbody->kspring.r.y, &lbody->kspring.o};
+            lbody->collision = 0;
+            for (int i=0; i<3; i++) {
+                if (collision == kspring[i])
+                    lbody->collision = i+1;
+            }
+        }
             #ifdef OVERRIDEMOI
                     S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
             #endif
-- 
2.43.0

