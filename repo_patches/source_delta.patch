From 2d6a3dc24cccfa26295f1a7c39f6fc227ce46112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 001/139] fix: outward normals and positive volumes for
 corner-point depths decreasing with layer index

process_grdecl() reversed the face nodes when 'left_handed XOR sign==-1',
but the areal reflection is undone again and the vertical sign change is
already part of the handedness, so every grid whose ZCORN decreases with K
came out with inward normals and negative cell volumes.
---
 opm/core/grid/cpgpreprocess/preprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3b465c2..67d1c8d 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -928,12 +928,13 @@ void process_grdecl(const struct grdecl   *in,
             out->node_coordinates[i] *= sign;
     }
 
-    /* If an odd number of coordinate reflections were applied, the
+    /* In a left-handed coordinate system (irrespective of whether that
+     * is due to the areal or to the vertical direction), the
      * processing routines--especially facetopology()--will produce
      * node orderings that lead to normals pointing from 2 to 1.
      * Reverse nodes to reestablish expected normal direction (and
      * positive cell volumes). */
-    if (left_handed ^ (sign == -1)) {
+    if (left_handed) {
         reverse_face_nodes(out);
     }
 }
-- 
2.43.0


From c2fd8695c145bc732e0367376672b0eafcfacfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 002/139] fix: evaluate slanted corner-point pillars at the
 right elevation when depths are negated

process_grdecl() processes -ZCORN when depths decrease with K but evaluated
the pillars, whose end-points kept the original sign, at the negated depth.
---
 opm/core/grid/cpgpreprocess/preprocess.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 67d1c8d..0a3c19f 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -772,6 +772,7 @@ void process_grdecl(const struct grdecl   *in,
     int    *global_cell_index;
 
     double *zcorn;
+    double *coord;
 
     const size_t BIGNUM = 64;
     const int    nx = in->dims[0];
@@ -836,7 +837,14 @@ void process_grdecl(const struct grdecl   *in,
     sign      = get_zcorn_sign(nx, ny, nz, in->actnum, in->zcorn, &error);
     g.zcorn   = copy_and_permute_zcorn(nx, ny, nz, in->zcorn, sign, zcorn);
 
-    g.coord   = in->coord;
+    /* Pillar end-points must have the same vertical sign convention as the
+     * (possibly negated) corner-point depths, lest non-vertical pillars are
+     * evaluated at the wrong elevation. */
+    coord     = malloc (((size_t) 6) * (nx + 1) * (ny + 1) * sizeof *coord);
+    for (i = 0; i < ((size_t) 6) * (nx + 1) * (ny + 1); ++i) {
+        coord[i] = (i % 3 == 2) ? (sign * in->coord[i]) : in->coord[i];
+    }
+    g.coord   = coord;
 
 
     /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
@@ -845,6 +853,7 @@ void process_grdecl(const struct grdecl   *in,
 
     finduniquepoints(&g, plist, tolerance, out);
 
+    free (coord);
     free (zcorn);
     free (actnum);
 
-- 
2.43.0


From b37d045c1700d3c59670f57a990c30ad29e23705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 003/139] fix: reading a second deck with the same parser drops
 everything from the first

read() promises to overwrite any previous data, but kept the ignored keywords,
the start date and the schedule reading mode of the deck read before.
---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 8a1905e..cd5ea27 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -320,6 +320,9 @@ void EclipseGridParser::read(istream& is, bool convert_to_SI)
     floating_field_map_.clear();
     special_field_by_epoch_.clear();
     special_field_by_epoch_.push_back(SpecialMap());
+    ignored_fields_.clear();
+    current_reading_mode_ = Regular;
+    start_date_ = boost::gregorian::date(boost::date_time::not_a_date_time);
     current_time_days_ = 0.0;
     current_epoch_ = 0;
 
-- 
2.43.0


From ef922aa81ea0e4da82b218c54bcc69b5db567a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 004/139] fix: COMPDAT default counts spanning the saturation
 table and transmissibility items

Reading the saturation table number separately made "2* 0.2" put the well
diameter into the connection transmissibility factor, and rejected records
that end before the saturation table number.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..ce77bd7 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -941,14 +941,13 @@ struct COMPDAT : public SpecialBase
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
             compdat_line.open_shut_flag_ = readString(is);
-            std::vector<int> int_data(1,-1);
-            readDefaultedVectorData(is, int_data, 1);
-            compdat_line.sat_table_number_ = int_data[0];
-            std::vector<double> double_data(2, 0.0);
-            int num_to_read = 2;
+            std::vector<double> double_data(3, 0.0);
+            double_data[0] = -1;
+            int num_to_read = 3;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
-            compdat_line.connect_trans_fac_ = double_data[0];
-            compdat_line.diameter_ = double_data[1];
+            compdat_line.sat_table_number_ = int(double_data[0]);
+            compdat_line.connect_trans_fac_ = double_data[1];
+            compdat_line.diameter_ = double_data[2];
 
             // HACK! Ignore items 10-14.
             if (num_read == num_to_read) {
-- 
2.43.0


From 7d1214022b7b67425dab5919fcfa366c77fe38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 005/139] fix: SPECGRID records with only the dimensions
 swallowed the next keyword

The terminating slash is already consumed when fewer than four items are
given, so the reader took the following keyword and its data as the rest.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index ce77bd7..caa90fa 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -91,6 +91,9 @@ struct SPECGRID : public SpecialBase
         int nd = std::min(nread, ndim);
         copy(data.begin(), data.begin()+nd, &dimensions[0]);
         numres = data[ndim];
+        if (nread <= ndim) {
+            return; // Record was terminated by a slash.
+        }
         std::string candidate;
         is >> candidate;
         if (candidate == "/") {
-- 
2.43.0


From 89dc14dbc28e6d7a95c856a4a7b0a3e6f93a0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 006/139] fix: TITLE skipped the title line and swallowed the
 line after it

The stream is already positioned at the title when the field is created.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index caa90fa..7e96d64 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -266,7 +266,7 @@ struct TITLE : public SpecialBase
     virtual std::string name() const
     { return std::string("TITLE"); }
     virtual void read(std::istream& is)
-    { is >> ignoreLine; std::getline(is, title); }
+    { is >> ignoreWhitespace; std::getline(is, title); }
     virtual void write(std::ostream& os) const
     { os << name() << '\n' << title << '\n'; }
     virtual void convertToSI(const EclipseUnits&)
-- 
2.43.0


From 1c8eaf80dff3db088f5518e49914d83cc0c984c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 007/139] fix: WGRUPCON records ended before the phase
 swallowed the following records

A record terminated before the guide rate took the next record's well name as
its phase, and one terminated before the phase was dropped together with all
later records.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 25 +++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 7e96d64..0b845ae 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1409,24 +1409,17 @@ struct WGRUPCON : public SpecialBase
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             wgrupcon_line.guide_rate_ = double_data[0];
             
-            std::string phase = readString(is); 
-            if (phase[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
-            while (phase.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                phase = readString(is);
-            }
-            
-            wgrupcon_line.phase_ = phase;
-            
-            wgrupcon.push_back(wgrupcon_line);
-            // HACK! Ignore any further items
             if (num_read == num_to_read) {
-                ignoreSlashLine(is);
+                std::string phase = readString(is); 
+                if (phase[0] == '/') {
+                    is >> ignoreLine;
+                } else {
+                    wgrupcon_line.phase_ = phase;
+                    // HACK! Ignore any further items
+                    ignoreSlashLine(is);
+                }
             }
+            wgrupcon.push_back(wgrupcon_line);
 
         }
     }
-- 
2.43.0


From 98dbba43a647b048aea5259f7a084aa4625d063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 008/139] fix: GCONINJE reservoir rate limit was not converted
 to SI units

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 0b845ae..04c104b 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1087,6 +1087,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From f81896d18372cdda71c3d0bd8dffffeb07d3a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 009/139] fix: a comment before the slash ending a well or
 fault keyword

The slash after a comment line was taken for the name of another record, and
the data of the following keywords for its items.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 96 ++++++++++----------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 04c104b..ee69457 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -152,14 +152,14 @@ struct FAULTS : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
-            if (fltname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (fltname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine >> fltname;
             }
+            if (fltname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             FaultSegment fault_segment;
             fault_segment.ijk_coord.resize(6);
             fault_segment.fault_name = fltname;
@@ -222,14 +222,14 @@ struct MULTFLT : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
-            if (fltname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (fltname == "--") {
                 // This line is a comment
                 is >> ignoreLine >> fltname;
             }
+            if (fltname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
@@ -809,15 +809,15 @@ struct WELSPECS : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
@@ -931,15 +931,15 @@ struct COMPDAT : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
@@ -1035,15 +1035,15 @@ struct GCONINJE : public SpecialBase
     {
         while(is) {
             std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconinjeLine gconinje_line;
             gconinje_line.group_ = groupname;
             gconinje_line.injector_type_ = readString(is);
@@ -1139,15 +1139,15 @@ struct WCONINJE : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconinjeLine wconinje_line;
             wconinje_line.well_ = wellname;
             wconinje_line.injector_type_ = readString(is);
@@ -1248,15 +1248,15 @@ struct GCONPROD : public SpecialBase
     {
         while(is) {
             std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
@@ -1388,15 +1388,15 @@ struct WGRUPCON : public SpecialBase
     {
         while(is) {
             std::string wname = readString(is); 
-            if (wname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wname = readString(is);
             }
+            if (wname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
@@ -1492,15 +1492,15 @@ struct WCONPROD : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconprodLine wconprod_line;
             wconprod_line.well_ = wellname;
             wconprod_line.open_shut_flag_ = readString(is);
@@ -1601,15 +1601,15 @@ struct WELTARG : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WeltargLine weltarg_line;
             weltarg_line.well_ = wellname;
             weltarg_line.control_change_ = readString(is);
@@ -1682,15 +1682,15 @@ struct WELOPEN : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelopenLine welopen_line;
             welopen_line.well_ = wellname;
             welopen_line.openshutflag_ = readString(is);
@@ -2149,15 +2149,15 @@ struct WPOLYMER : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is);
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
             is >> wpolymer_line.polymer_concentration_;    
-- 
2.43.0


From a39bd351b339b9c0020a5d0a194dc064ede506af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 010/139] fix: MULTFLT did not recognise comments without a
 blank after the dashes

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index ee69457..d96fd1f 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -222,7 +222,7 @@ struct MULTFLT : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
-            while (fltname == "--") {
+            while (fltname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine >> fltname;
             }
-- 
2.43.0


From e74206ade28a752329d65ac10cebbadef7c13939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 011/139] fix: GCONPROD counted default items before the
 reservoir volume target twice

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index d96fd1f..f1b8853 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1289,10 +1289,7 @@ struct GCONPROD : public SpecialBase
                         int num_defaulted;
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
                         std::istringstream(num_defaulted_str) >> num_defaulted;
-                        read_ignored += num_defaulted;
-                        if (read_ignored >= to_read) {
-                            break;
-                        }
+                        read_ignored += num_defaulted - 1; // The loop counts one.
                     } else if(ignored_value[0] == '/') {
                         is.putback('/');
                         break;
-- 
2.43.0


From 6483a0d826792aff95d1af186f5ea65f0497c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 012/139] fix: cleared well controls kept a current control,
 which made cloning abort

---
 opm/core/wells/wells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..24759f7 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -590,7 +590,8 @@ clear_well_controls(int well_index, struct Wells *W)
     assert ((0 <= well_index) && (well_index < W->number_of_wells));
 
     if (W->ctrls[well_index] != NULL) {
-        W->ctrls[well_index]->num = 0;
+        W->ctrls[well_index]->num     =  0;
+        W->ctrls[well_index]->current = -1;
     }
 }
 
-- 
2.43.0


From 243d399bce40aa46c9a6873e114c699d3b8df768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 013/139] fix: repeated WELSPECS lines of a well gave duplicate
 nodes in the group tree

---
 opm/core/wells/WellsManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 328abd4..d1ee7e6 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -759,8 +759,8 @@ namespace Opm
                 well_collection_.addChild(it->first, it->second, deck);
             }
         }
-        for (size_t i = 0; i < welspecs.welspecs.size(); ++i) {
-            WelspecsLine line = welspecs.welspecs[i];
+        for (int w = 0; w < num_wells; ++w) {
+            const WelspecsLine& line = welspecs.welspecs[well_data[w].welspecsline];
             well_collection_.addChild(line.name_, line.group_, deck);
         }
 
-- 
2.43.0


From f32542289bb8220dca838ba1b4df48d251f3da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 014/139] fix: COMPDAT lines with a well name root only
 completed the first matching well

---
 opm/core/wells/WellsManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index d1ee7e6..407ac37 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -394,7 +394,6 @@ namespace Opm
                         wellperf_data[wix].push_back(pd);
                     }
                     found = true;
-                    break;
                 }
             }
             if (!found) {
-- 
2.43.0


From 88ff6fd1880a4865c88a059530b54e2462746529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 015/139] fix: wells declared SHUT under group control were
 opened

---
 opm/core/wells/WellsManager.cpp | 35 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 407ac37..c12a1c8 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -471,6 +471,9 @@ namespace Opm
             }
         }
 
+        // Which wells are shut, from the last relevant line in the deck.
+        std::vector<bool> well_is_shut(num_wells, false);
+
         // Get WCONINJE data, add injection controls to wells.
         // It is allowed to have multiple lines corresponding to
         // the same well, in which case the last one encountered
@@ -531,9 +534,7 @@ namespace Opm
                             THROW("Control for " << wci_line.control_mode_ << " not specified in well " << well_names[wix]);
                         }
                         // We need to check if the well is shut or not
-                        if (wci_line.open_shut_flag_ == "SHUT") {
-                        	cpos = ~cpos;
-                        }
+                        well_is_shut[wix] = (wci_line.open_shut_flag_ == "SHUT");
                         set_current_control(wix, cpos, w_);
 
                         // Set well component fraction.
@@ -658,10 +659,8 @@ namespace Opm
                         if (cpos == -1 && mode != ProductionControl::GRUP) {
                             THROW("Control mode type " << mode << " not present in well " << well_names[wix]);
                         }
-                        // If it's shut, we complement the cpos
-                        if (wcp_line.open_shut_flag_ == "SHUT") {
-                        	cpos = ~cpos; // So we can easily retrieve the cpos later
-                        }
+                        // We need to check if the well is shut or not
+                        well_is_shut[wix] = (wcp_line.open_shut_flag_ == "SHUT");
                         set_current_control(wix, cpos, w_);
                     }
                 }
@@ -732,17 +731,9 @@ namespace Opm
                 }
                 const int index = it->second;
                 if (line.openshutflag_ == "SHUT") {
-                    int& cur_ctrl = w_->ctrls[index]->current;
-                    if (cur_ctrl >= 0) {
-                        cur_ctrl = ~cur_ctrl;
-                    }
-                    ASSERT(w_->ctrls[index]->current < 0);
+                    well_is_shut[index] = true;
                 } else if (line.openshutflag_ == "OPEN") {
-                    int& cur_ctrl = w_->ctrls[index]->current;
-                    if (cur_ctrl < 0) {
-                        cur_ctrl = ~cur_ctrl;
-                    }
-                    ASSERT(w_->ctrls[index]->current >= 0);
+                    well_is_shut[index] = false;
                 } else {
                     THROW("Unknown Open/close keyword: \"" << line.openshutflag_<< "\". Allowed values: OPEN, SHUT.");
                 }
@@ -799,6 +790,16 @@ namespace Opm
         }
         well_collection_.setWellsPointer(w_);
         well_collection_.applyGroupControls();
+
+        // Shut wells, also those whose current control was set by
+        // their group. We complement the current control, so we can
+        // easily retrieve it later.
+        for (int w = 0; w < num_wells; ++w) {
+            int& cur_ctrl = w_->ctrls[w]->current;
+            if (well_is_shut[w] && cur_ctrl >= 0) {
+                cur_ctrl = ~cur_ctrl;
+            }
+        }
     }
 
 
-- 
2.43.0


From 8ff6295b7ceabb478312cb0be6a801dd7f876dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 016/139] fix: group control took over wells of nested groups
 which are not under group control

---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..050ec4f 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -269,7 +269,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->injectionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyInjGroupControl(control_mode, child_target, true);
+                children_[i]->applyInjGroupControl(control_mode, child_target, forced);
             }
             injSpec().control_mode_ = InjectionSpecification::FLD;
         }
@@ -294,7 +294,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->productionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyProdGroupControl(control_mode, child_target, true);
+                children_[i]->applyProdGroupControl(control_mode, child_target, forced);
             }
             prodSpec().control_mode_ = ProductionSpecification::FLD;
         }
-- 
2.43.0


From ed540a53cad1f61084c9e2f7908924f633420f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 017/139] fix: an applied production group limit was checked,
 and reported as violated, again

---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 050ec4f..b66b323 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -390,6 +390,7 @@ namespace Opm
                 applyProdGroupControl(production_mode_violated, 
                                       getTarget(production_mode_violated),
                                       true);
+                prodSpec().control_mode_ = production_mode_violated;
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing
-- 
2.43.0


From d2dfbe4a4f6f8ffb38885e84084c74d4e6b455a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 018/139] fix: group limits with procedure NONE were reported
 as violated for ever

---
 opm/core/wells/WellsGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index b66b323..2f3c57c 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -394,7 +394,7 @@ namespace Opm
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing
-                return false;
+                break;
             }
         }
      
-- 
2.43.0


From cab9df6e4413e19a0cfababb4f9ee94256b1f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 019/139] fix: the well shut for exceeding a group limit was
 the least producing one or an injector

---
 opm/core/wells/WellsGroup.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 2f3c57c..b130ac4 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -429,7 +429,7 @@ namespace Opm
             std::pair<WellNode*, double> child_max = children_[i]->getWorstOffending(well_reservoirrates_phase,
                                                                                      well_surfacerates_phase,
                                                                                      mode);
-            if (i == 0 || max.second < child_max.second) {
+            if (i == 0 || std::fabs(max.second) < std::fabs(child_max.second)) {
                 max = child_max;
             }
         }
@@ -770,6 +770,10 @@ namespace Opm
     {
         const int np = phaseUsage().num_phases;
         const int index = self_index_*np;
+        if (type() == INJECTOR) {
+            // Injectors do not contribute to production.
+            return std::pair<WellNode*, double>(this, 0.0);
+        }
         return std::pair<WellNode*, double>(this,
                                             rateByMode(&well_reservoirrates_phase[index],
                                                        &well_surfacerates_phase[index],
-- 
2.43.0


From ddd38dae475e9586ab49c69b9dd187c24ff7e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 020/139] fix: checking the limits of a shut well could reopen
 it

---
 opm/core/wells/WellsGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index b130ac4..ef185b6 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -654,6 +654,10 @@ namespace Opm
         // Check constraints.
         bool is_producer = (wells_->type[self_index_] == PRODUCER);
         const WellControls& ctrls = *wells_->ctrls[self_index_];
+        if (ctrls.current < 0) {
+            // Shut wells stay shut.
+            return true;
+        }
         for (int ctrl_index = 0; ctrl_index < ctrls.num; ++ctrl_index) {
             if (ctrl_index == ctrls.current || ctrl_index == group_control_index_) {
                 // We do not check constraints that either were used
-- 
2.43.0


From 6bd113b6a4913e004339b13cf268963a546beb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 021/139] fix: gas and liquid limits of producers were missing
 in the well tree

---
 opm/core/wells/WellsGroup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index ef185b6..e3f9d77 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -1097,6 +1097,8 @@ namespace Opm
                         production_specification.oil_max_rate_ = line.oil_max_rate_;
                         production_specification.control_mode_ = toProductionControlMode(line.control_mode_);
                         production_specification.water_max_rate_ = line.water_max_rate_;
+                        production_specification.gas_max_rate_ = line.gas_max_rate_;
+                        production_specification.liquid_max_rate_ = line.liquid_max_rate_;
                         injection_specification.guide_rate_ = 0.0; // we know we're not an injector
                     }
                 }
-- 
2.43.0


From 27c9a42122d7862641da0c44fbc620782c0e99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 022/139] fix: completions with I outside the grid were placed
 in the next row of cells

---
 opm/core/wells/WellsManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index c12a1c8..edbdd79 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -367,6 +367,11 @@ namespace Opm
                         kz2 = cpgdim[2] - 1;
                     }
 
+                    if (ix >= cpgdim[0] || jy >= cpgdim[1]) {
+                        THROW("Location i,j " << ix << ' ' << jy
+                              << " is outside the grid (well = " << name << ')');
+                    }
+
                     for (int kz = kz1; kz <= kz2; ++kz) {
                         int cart_grid_indx = ix + cpgdim[0]*(jy + cpgdim[1]*kz);
                         std::map<int, int>::const_iterator cgit =
-- 
2.43.0


From 576943e941f488c357b0ebf25a6f85a4fcb03ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 023/139] fix: reinjection controls of groups below the top of
 the tree were never applied

---
 opm/core/wells/WellsGroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index e3f9d77..2962144 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -616,6 +616,12 @@ namespace Opm
             }
             
         }
+        else {
+            // Nothing to reinject for this group, but there may be for its children.
+            for (size_t i = 0; i < children_.size(); ++i) {
+                children_[i]->applyExplicitReinjectionControls(well_reservoirrates_phase, well_surfacerates_phase);
+            }
+        }
     }
 
     // ==============    WellNode members   ============
-- 
2.43.0


From 05b94272922c54f7b568e10d91fbedd009554da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 024/139] fix: GRUPTREE did not accept comments

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index f1b8853..93c1485 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -297,20 +297,23 @@ struct GRUPTREE : public SpecialBase {
     }
 
     virtual void read(std::istream & is) {
-        while (!is.eof()) {
+        while (is) {
             std::string child = readString(is);
-            is >> ignoreWhitespace;
+            while (child.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine;
+                child = readString(is);
+            }
+            if (child[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             std::string parent = readString(is);
 
             std::cout << "CHILD = " << child << std::endl << "PARENT = " << parent << std::endl;
             tree[child] = parent;
             
-            is >> ignoreSlashLine;
-            is >> ignoreWhitespace;
-            if(is.peek() == int('/')) {
-                is >> ignoreSlashLine;
-                return;
-            }
+            ignoreSlashLine(is);
         }
     }
 
-- 
2.43.0


From 7efb06c47af997d0085f07fe0360b0afb2e9fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 025/139] fix: group control opened wells which had been shut

---
 opm/core/wells/WellsGroup.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 2962144..3858d79 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -817,6 +817,11 @@ namespace Opm
             THROW("Group injection control mode not handled: " << control_mode);
         }
 
+        // A shut well stays shut. (Having no current control, a well which has
+        // not got the group control it is waiting for yet is not shut.)
+        const bool waiting = group_control_index_ < 0 && injSpec().control_mode_ == InjectionSpecification::GRUP;
+        const bool is_shut = wells_->ctrls[self_index_]->current < 0 && !waiting;
+
         if (group_control_index_ < 0) {
             // The well only had its own controls, no group controls.
             append_well_controls(wct, target, distr, self_index_, wells_);
@@ -829,7 +834,7 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = target;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        set_current_control(self_index_, is_shut ? ~group_control_index_ : group_control_index_, wells_);
     }
 
 
@@ -929,6 +934,11 @@ namespace Opm
             THROW("Group production control mode not handled: " << control_mode);
         }
 
+        // A shut well stays shut. (Having no current control, a well which has
+        // not got the group control it is waiting for yet is not shut.)
+        const bool waiting = group_control_index_ < 0 && prodSpec().control_mode_ == ProductionSpecification::GRUP;
+        const bool is_shut = wells_->ctrls[self_index_]->current < 0 && !waiting;
+
         if (group_control_index_ < 0) {
             // The well only had its own controls, no group controls.
             append_well_controls(wct, ntarget, distr, self_index_, wells_);
@@ -941,7 +951,7 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = ntarget;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        set_current_control(self_index_, is_shut ? ~group_control_index_ : group_control_index_, wells_);
     }
 
     
-- 
2.43.0


From 3afbcda0b4d86bd9a8273dde998bd77828af6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 026/139] fix: well pressure differences were never updated
 after the first pressure solve

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..2bf2b1a 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -486,6 +486,7 @@ namespace Opm
                     std::vector<double>& wdp)
     {
         const int nw = wells.number_of_wells;
+        wdp.clear();
         const size_t np = per_grid_cell ?
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
-- 
2.43.0


From 91633eace6b7815f166d99045f1c097c7a8470a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 027/139] fix: depth of well cells was read outside the
 centroids of 2d grids

---
 opm/core/utility/miscUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 2bf2b1a..53e38b9 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -497,7 +497,7 @@ namespace Opm
                 int cell = wells.well_cells[j];
 
                 // Is this correct wrt. depth_ref?
-                double cell_depth = grid.cell_centroids[3 * cell + 2];
+                double cell_depth = grid.cell_centroids[grid.dimensions * cell + grid.dimensions - 1];
 
                 double saturation_sum = 0.0;
                 for (size_t p = 0; p < np; p++) {
-- 
2.43.0


From a0246bc595a31cb375593a90ad711dc2e1ba0453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 028/139] fix: third gravity component was read in 2d pressure
 solves with wells

---
 opm/core/pressure/IncompTpfa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index d9e3aac..4ee889a 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -336,7 +336,7 @@ namespace Opm
         // wdp_
         if (wells_) {
             Opm::computeWDP(*wells_, grid_, state.saturation(), props_.density(),
-                            gravity_ ? gravity_[2] : 0.0, true, wdp_);
+                            gravity_ ? gravity_[grid_.dimensions - 1] : 0.0, true, wdp_);
         }
         // totmob_, omega_, gpress_omegaweighted_
         if (gravity_) {
-- 
2.43.0


From 123917db0336afae85224b76d4997bb260976bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 029/139] fix: well report used the first well's composition
 for all injectors

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 53e38b9..229090d 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -618,7 +618,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
@@ -676,7 +676,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 6dabbdbdc10c2384c0ddd00cde7f268bd1cbb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 030/139] fix: well report read the wrong cell's saturations
 unless two phases

---
 opm/core/utility/miscUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 229090d..aa8b6fd 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -623,7 +623,7 @@ namespace Opm
                     // Production.
                     const int cell = wells.well_cells[perf];
                     double mob[max_np];
-                    props.relperm(1, &saturation[2*cell], &cell, mob, 0);
+                    props.relperm(1, &saturation[np*cell], &cell, mob, 0);
                     double tmob = 0;
                     for(int i = 0; i < np; ++i) {
                         mob[i] /= visc[i];
-- 
2.43.0


From c2733180cc93da2652defa56f367b82d8e6ea38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 031/139] fix: wellsToSrc kept old sources and lost wells
 sharing a cell

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index aa8b6fd..3cec234 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -454,7 +454,7 @@ namespace Opm
         if (np != 2) {
             THROW("wellsToSrc() requires a 2 phase case.");
         }
-        src.resize(num_cells);
+        src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
             if (wells.ctrls[w]->num != 1) {
@@ -476,7 +476,7 @@ namespace Opm
                 flow *= wells.comp_frac[np*w + 0]; // Obtaining water rate for inflow source.
             }
             const int cell = wells.well_cells[wells.well_connpos[w]];
-            src[cell] = flow;
+            src[cell] += flow;
         }
     }
 
-- 
2.43.0


From df5b939b47bea000f16f18d4dbe49e2ef1732285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 032/139] fix: gravity was left out on boundary faces with
 given pressure

---
 opm/core/pressure/tpfa/ifs_tpfa.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/opm/core/pressure/tpfa/ifs_tpfa.c b/opm/core/pressure/tpfa/ifs_tpfa.c
index 9c7a2ee..a62ce7d 100644
--- a/opm/core/pressure/tpfa/ifs_tpfa.c
+++ b/opm/core/pressure/tpfa/ifs_tpfa.c
@@ -190,7 +190,7 @@ compute_grav_term(struct UnstructuredGrid *G, const double *gpress,
                   double *fgrav)
 /* ---------------------------------------------------------------------- */
 {
-    int    c, i, f, c1, c2;
+    int    c, i, f, c1;
     double s;
 
     vector_zero(G->number_of_faces, fgrav);
@@ -200,13 +200,10 @@ compute_grav_term(struct UnstructuredGrid *G, const double *gpress,
             f  = G->cell_faces[i];
 
             c1 = G->face_cells[2*f + 0];
-            c2 = G->face_cells[2*f + 1];
 
             s  = 2.0*(c1 == c) - 1.0;
 
-            if ((c1 >= 0) && (c2 >= 0)) {
-                fgrav[f] += s * gpress[i];
-            }
+            fgrav[f] += s * gpress[i];
         }
     }
 }
@@ -605,9 +602,9 @@ assemble_incompressible(struct UnstructuredGrid      *G     ,
             s  = 2.0*(c1 == c) - 1.0;
             c2 = (c1 == c) ? c2 : c1;
 
-            h->b[c] -= trans[f] * (s * h->pimpl->fgrav[f]);
-
             if (c2 >= 0) {
+                h->b[c] -= trans[f] * (s * h->pimpl->fgrav[f]);
+
                 j2 = csrmatrix_elm_index(c, c2, h->A);
 
                 h->A->sa[j1] += trans[f];
-- 
2.43.0


From beefe68ae5770c2efebb5cd45d64dc89eb67d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 033/139] fix: computeFlowRatePerWell appended to earlier
 results

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 3cec234..c28a1b1 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -531,6 +531,7 @@ namespace Opm
             std::vector<double>& flow_rates_per_well)
     {
         int index_in_flow_rates = 0;
+        flow_rates_per_well.clear();
         for (int w = 0; w < wells.number_of_wells; w++) {
             int number_of_cells = wells.well_connpos[w + 1] - wells.well_connpos[w];
             double flow_sum = 0.0;
-- 
2.43.0


From 1b9f017e226a5ea202e5377fe05a02ac7f96db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 034/139] fix: wellsToSrc read outside the controls of shut
 wells

---
 opm/core/utility/miscUtilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index c28a1b1..61fd2aa 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -457,6 +457,9 @@ namespace Opm
         src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
+            if (cur < 0) {
+                continue; // Shut well.
+            }
             if (wells.ctrls[w]->num != 1) {
                 MESSAGE("In wellsToSrc(): well has more than one control, all but current control will be ignored.");
             }
-- 
2.43.0


From a508157e2c77280e1e1251faae6c1dd03ec8762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 035/139] fix: shut wells counted as pressure conditions in
 compressible solver

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 001f9a3..277f89a 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -961,7 +961,8 @@ assemble_well_contrib(struct cfs_tpfa_res_wells   *wells ,
 
             h->F[ nc + w ] -= dt * ctrl->target[ ctrl->current ];
         }
-        else {
+        else if (ctrl->current >= 0) {
+            /* Pressure control.  A shut well does not set the pressure. */
             is_neumann = 0;
         }
     }
-- 
2.43.0


From 6ac3e892fc7beb06a539cd8150c3795827e79211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 036/139] fix: shut wells had perforation rates after
 compressible pressure solves

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 277f89a..67c2f6f 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1119,7 +1119,8 @@ compute_wflux(int                        np    ,
                 t += pmob[ p ];
             }
 
-            wflux[ i ] = W->WI[i] * t * dp;
+            /* No flow in a shut well. */
+            wflux[ i ] = (W->ctrls[w]->current < 0) ? 0.0 : W->WI[i] * t * dp;
         }
     }
 }
-- 
2.43.0


From c01edd07cdc13a6000033f5db8b66327ab2fb27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 037/139] fix: every phase was upwinded by the first phase's
 potential in compressible solver

---
 opm/core/pressure/CompressibleTpfa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 3dcb204..4363990 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -429,7 +429,7 @@ namespace Opm
             for (int phase = 0; phase < np; ++phase) {
                 int upwindc = -1;
                 if (c[0] >=0 && c[1] >= 0) {
-                    upwindc = (pot[0] < pot[1]) ? c[1] : c[0];
+                    upwindc = (pot[0][phase] < pot[1][phase]) ? c[1] : c[0];
                 } else {
                     upwindc = (c[0] >= 0) ? c[0] : c[1];
                 }
-- 
2.43.0


From 8aa15afc58b50db03e356c20a77e423bdbd3164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 038/139] fix: well contributions to hybrid fluxes used another
 cell's inner product

---
 opm/core/pressure/mimetic/hybsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 694c561..13da354 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -686,7 +686,7 @@ hybsys_compute_press_flux_well(int nc, const int *pgconn, int nf,
             }
         }
 
-        gp2 += ngconn + ngconn;
+        gp2 += ngconn * ngconn;
     }
 
     /* Assign well BHP from linsolve output */
-- 
2.43.0


From 95227d5d177153c7109ceddc2a7e8fe03bc6e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 039/139] fix: hybrid solver wrote outside the well matrix when
 wells share a cell

---
 opm/core/pressure/ifsh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index a174bda..0d040f3 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -169,8 +169,8 @@ ifsh_impose_well_control(int              c,
             /* Well->well */
             for (w2 = (w1 + 1) % nwconn; w2 != w1; w2 = (w2 + 1) % nwconn) {
                 r  [ngconn + w2]    -= w2w[w2 + w1*nwconn] * bhp;
-                w2w[w2 + w1*ngconn]  = 0.0;
-                w2w[w1 + w2*ngconn]  = 0.0;
+                w2w[w2 + w1*nwconn]  = 0.0;
+                w2w[w1 + w2*nwconn]  = 0.0;
             }
 
             /* Assemble final well equation of the form S*p_bh = S*p_bh^0 */
-- 
2.43.0


From c2504deeb26697a2a5c5c20b07ef295f31e7a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 040/139] fix: hybrid solver treated fluxes as pressures on
 boundaries of well cells

---
 opm/core/pressure/ifsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index 0d040f3..9d767c8 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -133,7 +133,7 @@ ifsh_impose_well_control(int              c,
         f = gconn[i];
         j = ifsh->pimpl->bdry_condition[ f ];
 
-        if (j != -1) {
+        if ((j != -1) && (bc->type[j] == BC_PRESSURE)) {
             for (w1 = 0; w1 < nwconn; w1++) {
                 /* Eliminate prescribed (boundary) pressure value */
                 r  [ngconn + w1]   -= r2w[i + w1*ngconn] * bc->value[j];
-- 
2.43.0


From 9d91d1722d9c794eb0b98d1f61fad15e1c148ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 041/139] fix: closed compressible hybrid systems were
 regularised and leaked

---
 opm/core/pressure/cfsh.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/cfsh.c b/opm/core/pressure/cfsh.c
index 8ca7e9f..3190397 100644
--- a/opm/core/pressure/cfsh.c
+++ b/opm/core/pressure/cfsh.c
@@ -192,6 +192,7 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
 /* ---------------------------------------------------------------------- */
 {
     int npp;                /* Number of prescribed pressure values */
+    int c, is_compr;
 
     /* Suppress warnings about unused parameters. */
     (void) wctrl;  (void) WI;  (void) BivW;  (void) wdp;
@@ -204,7 +205,12 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
 
     npp = cfsh_assemble_grid(bc, Binv, gpress, src, h);
 
-    if (npp == 0) {
+    is_compr = 0;
+    for (c = 0; c < h->pimpl->nc; c++) {
+        is_compr = is_compr || (P[c] != 0.0);
+    }
+
+    if ((npp == 0) && !is_compr) {
         h->A->sa[0] *= 2;        /* Remove zero eigenvalue */
     }
 }
-- 
2.43.0


From af10258adef9d3ebcab3f41cb40c0b6d97f7fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 042/139] fix: hybrid matrix rows of wells sharing cells had
 uninitialised entries

---
 opm/core/pressure/mimetic/hybsys_global.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 33a352e..8feff59 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -171,8 +171,10 @@ count_conn_per_row_well(struct UnstructuredGrid *G, well_t *W,
 
             for (m = 0; m < wia[w]->m; m++) {
                 if ((dof = wia[w]->s[m]) >= 0) {
-                    A->ia[ dof + 1 ] += 1; /* face to well */
-                    nwdof            += 1; /* well to face */
+                    if (dof < nf) {
+                        A->ia[ dof + 1 ] += 1; /* face to well */
+                    }
+                    nwdof                += 1; /* well to dof */
                 }
             }
 
-- 
2.43.0


From e07d14d05b9729f8f4472e782045c91c331e04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 043/139] fix: chopping flat ends of an interpolator used
 erased points

---
 opm/core/utility/MonotCubicInterpolator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index f2e0200..3ad3a41 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -528,21 +528,21 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its right value from the left end.
     while ((xf_next_iterator != data.end()) && 
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator++;
         data.erase(xf_iterator);
-	xf_iterator++;
+        xf_iterator = xf_next_iterator++;
     }
 
     xf_iterator = data.end(); 
     xf_iterator--;   // (data.end() points beyond the last element)
     xf_next_iterator = xf_iterator;
-    xf_next_iterator--;
+    if (xf_next_iterator != data.begin()) { // (all points may have been equal)
+        xf_next_iterator--;
+    }
     // Erase data points that are similar to its left value from the right end.
     while ((xf_next_iterator != data.begin()) &&
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator--;
         data.erase(xf_iterator);
-	xf_iterator--;
+        xf_iterator = xf_next_iterator--;
     }
     
     // Finished chopping, so recompute function data:
-- 
2.43.0


From 92ceb3e428b781479708f62a5def1a6691562db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 044/139] fix: interpolator values after shrinking flat areas
 depended on queries

---
 opm/core/utility/MonotCubicInterpolator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 3ad3a41..72ebac4 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -612,7 +612,9 @@ shrinkFlatAreas(const double epsilon) {
             xf_next_iterator++;
         }
     }
-    
+
+    // Finished shrinking, so recompute function data:
+    computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 5dbbb97ee190633bbd9cc4138d1caae45a1573ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 045/139] fix: scaling an interpolator kept stale monotonicity
 information

---
 opm/core/utility/MonotCubicInterpolator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 72ebac4..475c5e9 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -729,6 +729,8 @@ scaleData(double factor) {
       it->second  *= factor ;
     } 
   } 
+  // The direction of the data may have changed.
+  computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 665dd0a19413c6079e03ec50a510f7fc8d385caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 046/139] fix: interpolator took incomplete lines of a file as
 data points

---
 opm/core/utility/MonotCubicInterpolator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 475c5e9..6530920 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -144,9 +144,10 @@ read(const std::string & datafilename, int xColumn, int fColumn)
     if (linestring.size() > 0 && linestring.at(0) != '#') {
         while (!(strs.rdstate() & std::ios::failbit)) {
             double tmp;
-            strs >> tmp;
-            value.push_back(tmp);
-            columnindex++;
+            if (strs >> tmp) {
+                value.push_back(tmp);
+                columnindex++;
+            }
         }
     }
     if (columnindex >= (max(xColumn, fColumn))) {
-- 
2.43.0


From 6678600287f287956adaa578478e166a32f9f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 047/139] fix: interpolator's missing point depended on
 evaluation order

---
 opm/core/utility/MonotCubicInterpolator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 6530920..44304fb 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -329,7 +329,8 @@ getMissingX() const throw(const char*)
     }
   }
   
-  double newXvalue = ((*maxfDiffPair_iterator).first + ((*(++maxfDiffPair_iterator)).first))/2;
+  const double leftXvalue = (*maxfDiffPair_iterator).first;
+  double newXvalue = (leftXvalue + ((*(++maxfDiffPair_iterator)).first))/2;
   return make_pair(newXvalue, maxfDiffValue);
   
 }
-- 
2.43.0


From 80eeebff0c0defb41a3e81967b684009ee4ad16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 048/139] fix: inverse of a decreasing table ignored rescaling
 of its domain

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index aac2db2..79ca71e 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -151,6 +151,9 @@ namespace Opm
         for (int i = 0; i < int(x_values_.size()); ++i) {
             x_values_[i] = (x_values_[i] - a)*(d - c)/(b - a) + c;
         }
+        // Cached data for inverse() are no longer valid.
+        x_values_reversed_.clear();
+        y_values_reversed_.clear();
     }
 
     template<typename T>
-- 
2.43.0


From 595f226aa151e0fb5cce3caec8de3c01f511337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 049/139] fix: gas viscosity was NaN in cells containing only
 water

With neither vapour nor liquid the gas/oil ratio was computed as 0/0.
Live oil already guards against this.
---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index e58a51a..fe120bd 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -231,7 +231,7 @@ namespace Opm
         double Rval = linearInterpolation(saturated_gas_table_[0],
                                                 saturated_gas_table_[3], press,
                                                 section);
-        double maxR = surfvol[phase_pos_[Liquid]]/surfvol[phase_pos_[Vapour]];
+        double maxR = (surfvol[phase_pos_[Liquid]] == 0.0) ? 0.0 : surfvol[phase_pos_[Liquid]]/surfvol[phase_pos_[Vapour]];
         if (deriv) {
             if (Rval < maxR ) {  // Saturated case
                 return linearInterpolationDerivative(saturated_gas_table_[0],
-- 
2.43.0


From b79b77cb70aef1d9de70346753af98341e26599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 050/139] fix: wet gas tables with a single row per pressure
 were read outside

Interpolation in the undersaturated rows of a PVTG section needs at
least two rows. This was only checked for the lower one of the two
sections used, and not at all outside the pressure range of the table.
---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 41 ++++++++++++-------------
 opm/core/props/pvt/SinglePvtLiveGas.hpp |  3 ++
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index fe120bd..1b0b6f0 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -222,6 +222,19 @@ namespace Opm
         }
     }
 
+    double SinglePvtLiveGas::undersaturatedValue(const int section,
+                                                 const int item,
+                                                 const double maxR) const
+    {
+        if (undersat_gas_tables_[section][0].size() < 2) {
+            // No undersaturated data in this section, only the saturated row.
+            return saturated_gas_table_[item][section];
+        }
+        return linearInterpolation(undersat_gas_tables_[section][0],
+                                   undersat_gas_tables_[section][item],
+                                   maxR);
+    }
+
     double SinglePvtLiveGas::miscible_gas(const double press,
                                           const double* surfvol,
                                           const int item,
@@ -246,14 +259,8 @@ namespace Opm
                          saturated_gas_table_[0][is]);
                     return val;
                 }
-                double val1 =
-                    linearInterpolation(undersat_gas_tables_[is][0],
-                                              undersat_gas_tables_[is][item],
-                                              maxR);
-                double val2 =
-                    linearInterpolation(undersat_gas_tables_[is+1][0],
-                                              undersat_gas_tables_[is+1][item],
-                                              maxR);
+                double val1 = undersaturatedValue(is, item, maxR);
+                double val2 = undersaturatedValue(is+1, item, maxR);
                 double val = (val2 - val1)/
                     (saturated_gas_table_[0][is+1] - saturated_gas_table_[0][is]);
                 return val;
@@ -267,17 +274,13 @@ namespace Opm
                 int is = section;
                 // Extrapolate from first table section
                 if (is == 0 && press < saturated_gas_table_[0][0]) {
-                    return linearInterpolation(undersat_gas_tables_[0][0],
-                                                     undersat_gas_tables_[0][item],
-                                                     maxR);
+                    return undersaturatedValue(0, item, maxR);
                 }
 
                 // Extrapolate from last table section
                 int ltp = saturated_gas_table_[0].size() - 1;
                 if (is+1 == ltp && press > saturated_gas_table_[0][ltp]) {
-                    return linearInterpolation(undersat_gas_tables_[ltp][0],
-                                                     undersat_gas_tables_[ltp][item],
-                                                     maxR);
+                    return undersaturatedValue(ltp, item, maxR);
                 }
 
                 // Interpolate between table sections
@@ -290,14 +293,8 @@ namespace Opm
                            saturated_gas_table_[item][is]);
                     return val;
                 }
-                double val1 =
-                    linearInterpolation(undersat_gas_tables_[is][0],
-                                              undersat_gas_tables_[is][item],
-                                              maxR);
-                double val2 =
-                    linearInterpolation(undersat_gas_tables_[is+1][0],
-                                              undersat_gas_tables_[is+1][item],
-                                              maxR);
+                double val1 = undersaturatedValue(is, item, maxR);
+                double val2 = undersaturatedValue(is+1, item, maxR);
                 double val = val1 + w*(val2 - val1);
                 return val;
             }
diff --git a/opm/core/props/pvt/SinglePvtLiveGas.hpp b/opm/core/props/pvt/SinglePvtLiveGas.hpp
index 7f29c3b..52e287e 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.hpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.hpp
@@ -77,6 +77,9 @@ namespace Opm
         void evalRDeriv(double press, const double* surfvol, double& R, double& dRdp) const;
 
         // item:  1=>B  2=>mu;
+        double undersaturatedValue(const int section,
+                                   const int item,
+                                   const double maxR) const;
         double miscible_gas(const double press,
                             const double* surfvol,
                             const int item,
-- 
2.43.0


From 77cf1e958cc94c08f2088b1c399b666f00049c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 051/139] fix: derivative of undersaturated gas was wrong
 outside the pressure table

The value is constant there, while the derivative of the nearest
interval was reported.
---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index 1b0b6f0..7fc22b5 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -252,6 +252,11 @@ namespace Opm
                                                 press);
             } else {  // Undersaturated case
                 int is = section;
+                if (press < saturated_gas_table_[0].front()
+                    || press > saturated_gas_table_[0].back()) {
+                    // The value is constant outside the table, see below.
+                    return 0.0;
+                }
                 if (undersat_gas_tables_[is][0].size() < 2) {
                     double val = (saturated_gas_table_[item][is+1]
                                   - saturated_gas_table_[item][is]) /
-- 
2.43.0


From fb1ed1d5e298e1aabff491ffdefb5847acca9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 052/139] fix: undersaturated oil was filled in from a more
 distant section

iPrev already holds the nearest preceding section with undersaturated
data, and must not be set back to the previous iNext.
---
 opm/core/props/pvt/SinglePvtLiveOil.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveOil.cpp b/opm/core/props/pvt/SinglePvtLiveOil.cpp
index 269eb33..d427d79 100644
--- a/opm/core/props/pvt/SinglePvtLiveOil.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveOil.cpp
@@ -87,7 +87,6 @@ namespace Opm
                 bool flagPrev = (iPrev >= 0);
                 bool flagNext = true;
                 if (iNext < i) {
-                        iPrev = iNext;
                         flagPrev = true;
                         iNext = i+1;
                         while (undersat_oil_tables_[iNext][0].size() < 2) {
-- 
2.43.0


From 311747a7642630eccc5c1061cb7c37209adfb7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 053/139] fix: Stone II oil relperm derivative with gas
 saturation was wrong

It contained the water relperm where the derivative of the product has
no such term, and subtracted the gas derivative twice.
---
 opm/core/props/satfunc/SatFuncStone2.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 93cbe00..209f0aa 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -146,8 +146,8 @@ namespace Opm
             dkrds[Aqua + Aqua*np] = dkrww;
             dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
-            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg)
+                                                    + (dkrow/krocw)*(krog/krocw + krg) - dkrgg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -340,8 +340,8 @@ namespace Opm
             dkrds[Aqua + Aqua*np] = dkrww;
             dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
-            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg)
+                                                    + (dkrow/krocw)*(krog/krocw + krg) - dkrgg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
-- 
2.43.0


From c91059df20f8d7e8abe4d7e070da019e75ed6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 054/139] fix: Stone II oil relperm had derivatives where it is
 limited to zero

The derivatives of the negative expression were reported.
---
 opm/core/props/satfunc/SatFuncStone2.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 209f0aa..40378c3 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -140,11 +140,13 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
+            dkrds[Aqua + Aqua*np] = dkrww;
+            dkrds[Vapour + Vapour*np] = dkrgg;
             if (kr[Liquid] < 0.0) {
+                // Constant zero, so are the derivatives.
                 kr[Liquid] = 0.0;
+                return;
             }
-            dkrds[Aqua + Aqua*np] = dkrww;
-            dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg)
                                                     + (dkrow/krocw)*(krog/krocw + krg) - dkrgg);
@@ -334,11 +336,13 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
+            dkrds[Aqua + Aqua*np] = dkrww;
+            dkrds[Vapour + Vapour*np] = dkrgg;
             if (kr[Liquid] < 0.0) {
+                // Constant zero, so are the derivatives.
                 kr[Liquid] = 0.0;
+                return;
             }
-            dkrds[Aqua + Aqua*np] = dkrww;
-            dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg)
                                                     + (dkrow/krocw)*(krog/krocw + krg) - dkrgg);
-- 
2.43.0


From 32addab9fd78d0596b262b533e72edb23dc8c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 055/139] fix: segregation model derivatives were NaN without
 mobile water and gas

The saturations are limited from below in the values, but not in the
derivatives.
---
 opm/core/props/satfunc/SatFuncGwseg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncGwseg.cpp b/opm/core/props/satfunc/SatFuncGwseg.cpp
index 94b0131..d77929c 100644
--- a/opm/core/props/satfunc/SatFuncGwseg.cpp
+++ b/opm/core/props/satfunc/SatFuncGwseg.cpp
@@ -153,7 +153,7 @@ namespace Opm
             const double dkrgg = krg_.derivative(ssg);
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
-            const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
+            const double d = std::max(ssg, eps); // = sw - swco + sg (using 'd' for consistency with mrst docs).
             dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
             dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
             dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
@@ -358,7 +358,7 @@ namespace Opm
             const double dkrgg = krg_.derivative(ssg);
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
-            const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
+            const double d = std::max(ssg, eps); // = sw - swco + sg (using 'd' for consistency with mrst docs).
             dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
             dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
             dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
-- 
2.43.0


From f92fdec98ad994905d3d27cd250889df1157b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 056/139] fix: scaled water relperm looked for the oil end
 point value

With KRWR and KRO but no KRW, entries of an empty array were read; with
KRW but no KRO the given value was ignored.
---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 5f1983c..23e8c93 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -477,7 +477,7 @@ namespace Opm
            } else if (sr > swmax-1.0e-6) {
                if (do_3pt_) { //Ignore krw and do two-point?
                    kr[wpos] *= eps_.krwr_[cell]/funcForCell(cell).krwr_;
-               } else if (!eps_.kro_.empty()){ //Ignore krwr and do two-point
+               } else if (!eps_.krw_.empty()){ //Ignore krwr and do two-point
                    kr[wpos] *= eps_.krw_[cell]/funcForCell(cell).krwmax_;
                }
            } else if (s[wpos] <= sr) {
-- 
2.43.0


From 23bb207551f3472fcc440a1fad67788e360db9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 057/139] fix: three-point scaling ignored the displacing
 critical saturation alone

SOWCR is one of the three points of the water curve, and SWCR one of the
points of the oil curve, also when the other points are not given.
---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 23e8c93..b0bbf62 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -383,7 +383,7 @@ namespace Opm
        
        if (do_3pt_) { // Three-point scaling
            // Transforms for water saturation 
-           if (eps_.swcr_.empty() && eps_.swu_.empty()) {
+           if (eps_.swcr_.empty() && eps_.swu_.empty() && eps_.sowcr_.empty()) {
                ss[wpos] = s[wpos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).sowcr_;
@@ -399,7 +399,7 @@ namespace Opm
                }
            }
            // Transforms for oil saturation 
-           if (eps_.sowcr_.empty() && eps_.swl_.empty()) {
+           if (eps_.sowcr_.empty() && eps_.swl_.empty() && eps_.swcr_.empty()) {
                ss[opos] = s[opos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).swcr_;
-- 
2.43.0


From 8df316d6b9a9257acfb2c5a7613cf363e96262d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 058/139] fix: saturation range did not follow the scaled end
 points

The range of the unscaled table was reported, so states were initialised
outside the range of cells with scaled SWL or SWU.
---
 .../props/satfunc/SaturationPropsFromDeck_impl.hpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index b0bbf62..05ead6f 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -239,6 +239,18 @@ namespace Opm
                 smin[np*i + p] = funcForCell(cells[i]).smin_[p];
                 smax[np*i + p] = funcForCell(cells[i]).smax_[p];
             }
+            if (do_eps_) { // Only oil and water, see init().
+                const int wpos = phase_usage_.phase_pos[Aqua];
+                const int opos = phase_usage_.phase_pos[Liquid];
+                if (!eps_.swl_.empty()) {
+                    smin[np*i + wpos] = eps_.swl_[cells[i]];
+                    smax[np*i + opos] = 1.0 - eps_.swl_[cells[i]];
+                }
+                if (!eps_.swu_.empty()) {
+                    smax[np*i + wpos] = eps_.swu_[cells[i]];
+                    smin[np*i + opos] = 1.0 - eps_.swu_[cells[i]];
+                }
+            }
         }
     }
 
-- 
2.43.0


From 52a6f9bf7d9639932fc9d2dd28bc2ab611d424d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 059/139] fix: end point scaling used uninitialised end points
 in incompressible runs

The saturation functions used do not compute their end points. The
compressible properties refuse such decks, so do the same.
---
 opm/core/props/IncompPropertiesFromDeck.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/props/IncompPropertiesFromDeck.cpp b/opm/core/props/IncompPropertiesFromDeck.cpp
index bcb6bdc..00f3cec 100644
--- a/opm/core/props/IncompPropertiesFromDeck.cpp
+++ b/opm/core/props/IncompPropertiesFromDeck.cpp
@@ -32,6 +32,10 @@ namespace Opm
     {
         rock_.init(deck, grid);
         pvt_.init(deck);
+        if (deck.hasField("ENDSCALE")) {
+            // The end points are not available from the saturation functions used.
+            THROW("Sorry, end point scaling currently available for the 'simple' model only.");
+        }
         satprops_.init(deck, grid, 200);
         if (pvt_.numPhases() != satprops_.numPhases()) {
             THROW("IncompPropertiesFromDeck::IncompPropertiesFromDeck() - Inconsistent number of phases in pvt data ("
-- 
2.43.0


From e8aba412863430a7757d2c0d149e012c0f85ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 060/139] fix: compressible mobilities were computed for as
 many cells as the model has, not as were listed

---
 opm/core/utility/miscUtilitiesBlackoil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilitiesBlackoil.cpp b/opm/core/utility/miscUtilitiesBlackoil.cpp
index 4584e45..25452b1 100644
--- a/opm/core/utility/miscUtilitiesBlackoil.cpp
+++ b/opm/core/utility/miscUtilitiesBlackoil.cpp
@@ -196,7 +196,7 @@ namespace Opm
                                 const std::vector<double>&              s,
                                 std::vector<double>&                    pmobc)
     {
-        const int nc = props.numCells();
+        const int nc = cells.size();
         const int np = props.numPhases();
 
         ASSERT (int(s.size()) == nc * np);
-- 
2.43.0


From 347e78c62abd5cbe9176ac38b4df3ced205a8e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 061/139] fix: gravity column solver headers included files by
 paths which do not exist

---
 opm/core/transport/implicit/GravityColumnSolver.hpp      | 2 +-
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver.hpp b/opm/core/transport/implicit/GravityColumnSolver.hpp
index 1213297..0d058e5 100644
--- a/opm/core/transport/implicit/GravityColumnSolver.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver.hpp
@@ -61,6 +61,6 @@ namespace Opm
 
 } // namespace Opm
 
-#include <opm/core/transport/GravityColumnSolver_impl.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver_impl.hpp>
 
 #endif // OPM_GRAVITYCOLUMNSOLVER_HEADER_INCLUDED
diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index 7e31778..d3c9b26 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -17,7 +17,7 @@
   along with OPM.  If not, see <http://www.gnu.org/licenses/>.
 */
 
-#include <opm/core/transport/GravityColumnSolver.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
 #include <opm/core/linalg/blas_lapack.h>
 #include <opm/core/utility/ErrorMacros.hpp>
 #include <sys/time.h>
-- 
2.43.0


From 5c40a2d9822c498d1cd5dc1f43a54e6eb53e64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 062/139] fix: both upwind mobilities could be zero when one
 phase is absent upwind

---
 opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
index 92d8703..0ad376b 100644
--- a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
+++ b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
@@ -638,8 +638,11 @@ namespace Opm {
 
                 m[0] = store_.mob(n[ pix[0] ]) [ 0 ];
 
-                if (! (dflux - m[0]*gflux < 0))     { pix[1] = 0; }
-                else                                { pix[1] = 1; }
+                const double oflux = dflux - m[0]*gflux;
+
+                if      (oflux > 0)                 { pix[1] = 0; }
+                else if (oflux < 0)                 { pix[1] = 1; }
+                else                                { pix[1] = pix[0]; }
 
                 m[1] = store_.mob(n[ pix[1] ]) [ 1 ];
 
-- 
2.43.0


From 33c1112b364a4984e296e30188162cbfd11c40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 063/139] fix: root finders left the iteration count unset when
 they returned early

---
 opm/core/utility/RootFinders.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index 47b6057..d2d589e 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -119,6 +119,7 @@ namespace Opm
             using namespace std;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
+            iterations_used = 0;
 
             double x0 = a;
             double x1 = b;
@@ -134,7 +135,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
@@ -199,6 +199,7 @@ namespace Opm
             using namespace std;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
+            iterations_used = 0;
 
             double f_initial = f(initial_guess);
             const double epsF = tolerance + macheps*max(fabs(f_initial), 1.0);
@@ -231,7 +232,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
-- 
2.43.0


From 91e206e8bfb468addca763140b8454de1ba54501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 064/139] fix: root finder with a guess gave the error policy
 the guess's value as an end value

---
 opm/core/utility/RootFinders.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index d2d589e..4bfa8f0 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -225,11 +225,10 @@ namespace Opm
             if (f0*f_initial < 0.0) {
                 x1 = initial_guess;
                 f1 = f_initial;
-            } else {
+            } else if (f1*f_initial < 0.0) {
                 x0 = initial_guess;
                 f0 = f_initial;
-            }
-            if (f0*f1 > 0.0) {
+            } else {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
             // In every iteraton, x1 is the last point computed,
-- 
2.43.0


From 1dd71ae0addc2ee1cb02a9a12960df4953547f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 065/139] fix: capacity of compressible boundary conditions was
 never recorded

---
 opm/core/pressure/tpfa/compr_bc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..32dda5f 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -60,7 +60,7 @@ expand_source_tables(int alloc, struct compr_bc *bc)
 
         alloc = 0;
     } else {
-        bc->type       = t;  bc->face = f;
+        bc->type       = t;  bc->face = f;  bc->cpty = alloc;
         bc->press      = p;  bc->flux = v;
         bc->saturation = s;
     }
-- 
2.43.0


From 3b55e49ced3a11ff335475b4e5cf75f6dd0eb5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 066/139] fix: implicit transport listed matrix elements twice
 for cells sharing two faces

---
 opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp b/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
index 4e5b4fc..d94da33 100644
--- a/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
+++ b/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
@@ -160,7 +160,11 @@ namespace Opm {
                     sconn_.push_back(static_cast<int>(*c));
                 }
 
+                // Cells may share more than one face, but each matrix
+                // element must be listed only once.
                 ::std::sort(sconn_.begin(), sconn_.end());
+                sconn_.erase(::std::unique(sconn_.begin(), sconn_.end()),
+                             sconn_.end());
 
                 esconn_.resize(0);
                 esconn_.reserve(ndof * sconn_.size());
-- 
2.43.0


From 6db2927e5cad60095b071f5629f05fe13f4368b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 067/139] fix: direct solver did nothing for matrices with
 repeated elements, such as wells with two perforations in a cell

---
 opm/core/linalg/call_umfpack.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/opm/core/linalg/call_umfpack.c b/opm/core/linalg/call_umfpack.c
index e907442..f479b2e 100644
--- a/opm/core/linalg/call_umfpack.c
+++ b/opm/core/linalg/call_umfpack.c
@@ -94,6 +94,35 @@ csc_allocate(UF_long n, UF_long nnz)
 }
 
 
+/* Add up matrix elements which are listed more than once.  The elements of
+ * each column must be sorted by row. */
+/* ---------------------------------------------------------------------- */
+static void
+csc_sum_repeated(struct CSCMatrix *csc)
+/* ---------------------------------------------------------------------- */
+{
+    UF_long col, start, nz, n;
+
+    for (col = nz = n = 0; col < csc->n; col++) {
+        start = n;
+
+        for (; nz < csc->p[col + 1]; nz++) {
+            if ((n > start) && (csc->i[n - 1] == csc->i[nz])) {
+                csc->x[n - 1] += csc->x[nz];
+            } else {
+                csc->i[n] = csc->i[nz];
+                csc->x[n] = csc->x[nz];
+                n += 1;
+            }
+        }
+
+        csc->p[col + 1] = n;
+    }
+
+    csc->nnz = n;
+}
+
+
 /* ---------------------------------------------------------------------- */
 static void
 csr_to_csc(const int        *ia,
@@ -133,6 +162,8 @@ csr_to_csc(const int        *ia,
     assert (csc->p[csc->n] == csc->nnz);
 
     csc->p[0] = 0;
+
+    csc_sum_repeated(csc);
 }
 
 
-- 
2.43.0


From 2eb3569a3a9bd39fa4f6725047d1057813a8265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 068/139] fix: direct solver reported success for systems it
 could not solve

---
 opm/core/linalg/LinearSolverUmfpack.cpp |  4 ++--
 opm/core/linalg/call_umfpack.c          | 29 +++++++++++++++++--------
 opm/core/linalg/call_umfpack.h          |  8 ++++++-
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/opm/core/linalg/LinearSolverUmfpack.cpp b/opm/core/linalg/LinearSolverUmfpack.cpp
index 5d459a2..04c6ef0 100644
--- a/opm/core/linalg/LinearSolverUmfpack.cpp
+++ b/opm/core/linalg/LinearSolverUmfpack.cpp
@@ -55,9 +55,9 @@ namespace Opm
             const_cast<int*>(ja),
             const_cast<double*>(sa)
         };
-        call_UMFPACK(&A, rhs, solution);
+        const int solved = call_UMFPACK(&A, rhs, solution);
         LinearSolverReport rep;
-        rep.converged = true;
+        rep.converged = (solved != 0);
         return rep;
     }
 
diff --git a/opm/core/linalg/call_umfpack.c b/opm/core/linalg/call_umfpack.c
index f479b2e..a1dd607 100644
--- a/opm/core/linalg/call_umfpack.c
+++ b/opm/core/linalg/call_umfpack.c
@@ -168,34 +168,43 @@ csr_to_csc(const int        *ia,
 
 
 /* ---------------------------------------------------------------------- */
-static void
+static int
 solve_umfpack(struct CSCMatrix *csc, const double *b, double *x)
 /* ---------------------------------------------------------------------- */
 {
     void *Symbolic, *Numeric;
+    UF_long status;
     double Info[UMFPACK_INFO], Control[UMFPACK_CONTROL];
 
     umfpack_dl_defaults(Control);
 
-    umfpack_dl_symbolic(csc->n, csc->n, csc->p, csc->i, csc->x,
-                        &Symbolic, Control, Info);
-    umfpack_dl_numeric (csc->p, csc->i, csc->x,
-                        Symbolic, &Numeric, Control, Info);
+    status = umfpack_dl_symbolic(csc->n, csc->n, csc->p, csc->i, csc->x,
+                                 &Symbolic, Control, Info);
+    if (status < UMFPACK_OK) { return 0; }
+
+    status = umfpack_dl_numeric (csc->p, csc->i, csc->x,
+                                 Symbolic, &Numeric, Control, Info);
 
     umfpack_dl_free_symbolic(&Symbolic);
 
-    umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
-                     Numeric, Control, Info);
+    /* Positive status is a warning, e.g., a singular matrix. */
+    if (status < UMFPACK_OK) { return 0; }
+
+    status = umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
+                              Numeric, Control, Info);
 
     umfpack_dl_free_numeric(&Numeric);
+
+    return status == UMFPACK_OK;
 }
 
 
 /*---------------------------------------------------------------------------*/
-void
+int
 call_UMFPACK(struct CSRMatrix *A, const double *b, double *x)
 /*---------------------------------------------------------------------------*/
 {
+    int ok = 0;
     struct CSCMatrix *csc;
 
     csc = csc_allocate(A->m, A->ia[A->m]);
@@ -203,9 +212,11 @@ call_UMFPACK(struct CSRMatrix *A, const double *b, double *x)
     if (csc != NULL) {
         csr_to_csc(A->ia, A->ja, A->sa, csc);
 
-        solve_umfpack(csc, b, x);
+        ok = solve_umfpack(csc, b, x);
     }
 
     csc_deallocate(csc);
+
+    return ok;
 }
 
diff --git a/opm/core/linalg/call_umfpack.h b/opm/core/linalg/call_umfpack.h
index 98ba848..0b884bd 100644
--- a/opm/core/linalg/call_umfpack.h
+++ b/opm/core/linalg/call_umfpack.h
@@ -41,7 +41,13 @@ extern "C" {
 
 struct CSRMatrix;
 
-void call_UMFPACK(struct CSRMatrix *A, const double *b, double *x);
+/**
+ * Solve the linear system A*x = b.
+ *
+ * @return One (true) if the system was solved, and zero if it could not be,
+ * for instance because the matrix is singular.
+ */
+int call_UMFPACK(struct CSRMatrix *A, const double *b, double *x);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 06b16ec97b63f43e0bd26fcc2c55d917bcdba86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 069/139] fix: writing a matrix or vector to a file which
 cannot be opened crashed

---
 opm/core/linalg/sparse_sys.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..62c7dce 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -211,9 +211,8 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
@@ -245,9 +244,8 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
-- 
2.43.0


From 0f3b4cc90b7d50e806795ea046a9a801d261fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 070/139] fix: minimal transport solvers took oil from the
 wrong cell when there is only gravity flux

---
 opm/core/transport/minimal/spu_explicit.c | 4 ++--
 opm/core/transport/minimal/spu_implicit.c | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..6629c96 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -67,8 +67,8 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
             }
 
             else {
-                /* Oil mobility */
-                if (dflux[f]>0) {
+                /* Oil mobility.  Without Darcy flux, oil flows against gflux. */
+                if ((dflux[f]>0) || (dflux[f]==0 && gflux[f]<0)) {
                     m2 = mob[2*c1+1];
                 }
                 else {
diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..771db56 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -244,8 +244,9 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     /* If Darcy flux and gravity flux have opposite sign...   */
     else {
         
-        /* Positive oil phase flux */
-        if (darcyflux>0) {
+        /* Positive oil phase flux.  Without Darcy flux, oil flows against
+         * gravityflux. */
+        if ((darcyflux>0) || (darcyflux==0 && gravityflux<0)) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
-- 
2.43.0


From 52f4c4d430d53e99fc3f20e0f505ebaa8f3394e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 071/139] fix: minimal implicit solver wrote outside its matrix
 when most faces are interior

---
 opm/core/transport/minimal/spu_implicit.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index 771db56..9d2c5c8 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -135,7 +135,7 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
               void (*linear_solver)(int, int*, int*, double *, double *, double *))
 {
     int    nc   = g->number_of_cells;
-    int    nhf  = g->cell_facepos[nc]; /* Too much */
+    int    nnz  = nc + g->cell_facepos[nc]; /* Too much */
     double infnorm;
     double *b; 
     double *x;
@@ -148,8 +148,8 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
     sparse_t      *S = malloc(sizeof *S);
     if (S) {
         S->ia = malloc((nc+1) * sizeof *S->ia);
-        S->ja = malloc( nhf   * sizeof *S->ja);
-        S->sa = malloc( nhf   * sizeof *S->sa);
+        S->ja = malloc( nnz   * sizeof *S->ja);
+        S->sa = malloc( nnz   * sizeof *S->sa);
         S->n  = nc;
         S->m  = nc;
     }
-- 
2.43.0


From b1cec4024f633bbfee6af925d3f6f74ad60e6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 072/139] fix: tracer values in source cells were changed by
 inflow

---
 opm/core/tof/TofReorder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 618b541..5f9d4b2 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -172,8 +172,11 @@ namespace Opm
                 // face.
                 if (other != -1) {
                     upwind_term += flux*tof_[other];
-                    for (int tr = 0; tr < num_tracers_; ++tr) {
-                        tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
+                    // Do not change tracer solution in source cells.
+                    if (source_[cell] <= 0.0) {
+                        for (int tr = 0; tr < num_tracers_; ++tr) {
+                            tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 3326749294a2b24c91b72585255ab0f953070682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 073/139] fix: multidimensional time of flight was NaN next to
 faces without flow

---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 5f9d4b2..40adf0a 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -222,7 +222,7 @@ namespace Opm
             // Add flux to upwind_term or downwind_term_[face|cell_factor].
             if (flux < 0.0) {
                 upwind_term += flux*face_tof_[f];
-            } else {
+            } else if (flux > 0.0) {
                 double fterm, cterm_factor;
                 multidimUpwindTerms(f, cell, fterm, cterm_factor);
                 downwind_term_face += fterm*flux;
-- 
2.43.0


From 7b8cf30e99bca2a9a70c39bae320f96d412770c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 074/139] fix: tracer values were NaN in cells without flow

---
 opm/core/tof/TofReorder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 40adf0a..7c21694 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -188,8 +188,9 @@ namespace Opm
         tof_[cell] = (porevolume_[cell] - upwind_term)/downwind_flux;
 
         // Compute tracers (if any).
-        // Do not change tracer solution in source cells.
-        if (source_[cell] <= 0.0) {
+        // Do not change tracer solution in source cells, or in
+        // cells without any flow (where it is zero).
+        if (source_[cell] <= 0.0 && downwind_flux > 0.0) {
             for (int tr = 0; tr < num_tracers_; ++tr) {
                 tracer_[num_tracers_*cell + tr] *= -1.0/downwind_flux;
             }
-- 
2.43.0


From 92b2caef2c8f385b1c1e94bf80a7cf02959076c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 075/139] fix: slope limiter of DG time-of-flight failed in
 cells with flat solution

Where the solution is constant in a cell up to roundoff (for example in a
sink fed symmetrically), the limiter divided by zero or by a tiny negative
number, giving an assertion failure or a huge slope.
---
 opm/core/tof/TofDiscGalReorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/tof/TofDiscGalReorder.cpp b/opm/core/tof/TofDiscGalReorder.cpp
index ef50b66..1e0d5f1 100644
--- a/opm/core/tof/TofDiscGalReorder.cpp
+++ b/opm/core/tof/TofDiscGalReorder.cpp
@@ -459,7 +459,8 @@ namespace Opm
             min_upstream_tof = 0.0;
         }
         const double tof_c = basis_func_->functionAverage(tof_coeff_ + num_basis*cell);
-        double limiter = (tof_c - min_upstream_tof)/(tof_c - min_here_tof);
+        // If the solution is flat in this cell (up to roundoff), there is no slope to limit.
+        double limiter = (tof_c > min_here_tof) ? (tof_c - min_upstream_tof)/(tof_c - min_here_tof) : 1.0;
         if (tof_c < min_upstream_tof) {
             // Handle by setting a flat solution.
             std::cout << "Trouble in cell " << cell << std::endl;
-- 
2.43.0


From c698c8cb71a6dbee3ee2cdef13f115fc204cccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 076/139] fix: total time of a new simulation timer was
 indeterminate

---
 opm/core/simulator/SimulatorTimer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..75d2bc5 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -32,6 +32,7 @@ namespace Opm
     SimulatorTimer::SimulatorTimer()
         : current_step_(0),
           current_time_(0.0),
+          total_time_(0.0),
           start_date_(2012,1,1)    // A really arbitrary default starting value?!
     {
     }
-- 
2.43.0


From c5197c4b1b0430b0ec3e9cb6c4fa483fda9f61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 077/139] fix: invalid step numbers were accepted by the
 simulation timer

---
 opm/core/simulator/SimulatorTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 75d2bc5..f2c365b 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -73,8 +73,8 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
-            // Note that we do allow current_step_ == timesteps_.size(),
+        if (step < 0 || step > int(timesteps_.size())) {
+            // Note that we do allow step == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
         }
-- 
2.43.0


From d5c1988a8bbdd7d6d18545b630e870aa1fa4b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 078/139] fix: date of simulation timer overflowed after 68
 years

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index f2c365b..c20ec15 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -99,7 +99,7 @@ namespace Opm
 
     boost::posix_time::ptime SimulatorTimer::currentDateTime() const
     {
-      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (int) current_time_ );
+      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (long) current_time_ );
     }
     
 
-- 
2.43.0


From 33465e128f09c0e5417ff143906a18cf6d0e2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 079/139] fix: asking for a parameter below a plain parameter
 failed with bad_cast

---
 opm/core/utility/parameters/ParameterGroup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index ce85d4d..9b2699c 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -75,6 +75,8 @@ namespace Opm {
 		return false;
 	    } else if (name_path.second == "") {
 		return true;
+	    } else if ((*it).second->getTag() != ID_xmltag__param_grp) {
+		return false;
 	    } else {
 		ParameterGroup& pg = dynamic_cast<ParameterGroup&>(*(*it).second);
 		return pg.has(name_path.second);
-- 
2.43.0


From 25d1b22cf9852d0de016d6409f93664ba8311db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 080/139] fix: assigning below a plain parameter failed with
 bad_cast

---
 opm/core/utility/parameters/ParameterGroup.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 9b2699c..33d04ff 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -213,6 +213,20 @@ namespace Opm {
 		name_path = split(name_path.second);
 	    }
 	    map_type::const_iterator it = map_.find(name_path.first);
+	    if (it != map_.end() && name_path.second != "" &&
+		(*it).second->getTag() != ID_xmltag__param_grp) {
+		std::cout << "WARNING : The "
+			  << (*it).second->getTag()
+			  << " element '"
+			  << name_path.first
+			  << "' already exist in group '"
+			  << this->path()
+			  << "'. It will be replaced by a "
+			  << ID_xmltag__param_grp
+			  << " element.\n";
+		map_.erase(name_path.first);
+		it = map_.end();
+	    }
 	    if (it == map_.end()) {
 		if (name_path.second == "") {
 		    std::tr1::shared_ptr<ParameterMapItem> data(new Parameter(value, ID_param_type__cmdline));
-- 
2.43.0


From 7042328587f4026313add21b002b1da013020665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 081/139] fix: inserting a parameter without a name never
 returned

---
 opm/core/utility/parameters/ParameterGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 33d04ff..7a5a354 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -210,6 +210,10 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    while (name_path.first == "") {
+		if (name_path.second == "") {
+		    std::cerr << "Error: Cannot insert a parameter without a name.\n";
+		    throw std::exception();
+		}
 		name_path = split(name_path.second);
 	    }
 	    map_type::const_iterator it = map_.find(name_path.first);
-- 
2.43.0


From af8d32d8e4c76936fadec91c40a77898392fbbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 082/139] fix: lines without assignment were read as
 parameters, blank lines forever

---
 opm/core/utility/parameters/ParameterGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 7a5a354..7139592 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -129,6 +129,7 @@ namespace Opm {
                     int fpos = parameter.find(ID_delimiter_assignment);
                     if (fpos == int(std::string::npos)) {
                         std::cerr << "WARNING: No '" << ID_delimiter_assignment << "' found on line " << lineno << ".\n";
+                        continue;
                     }
                     int pos = fpos + ID_delimiter_assignment.size();
                     int spos = parameter.find(ID_delimiter_assignment, pos);
-- 
2.43.0


From 1207b9852959fb54ec2bb7fbd59165402d4f7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 083/139] fix: merged parameter groups referred to a deleted
 parent

---
 opm/core/utility/parameters/ParameterGroup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 7139592..4fd4059 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -180,6 +180,9 @@ namespace Opm {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    map_type::const_iterator it = map_.find(name_path.first);
 	    assert(name_path.second == "");
+	    if (data->getTag() == ID_xmltag__param_grp) {
+		dynamic_cast<ParameterGroup&>(*data).parent_ = this;
+	    }
 	    if (it == map_.end()) {
 		map_[name] = data;
 	    } else {
-- 
2.43.0


From e257a77502b07bd009178095339cd2854175ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 084/139] fix: requirement of a nonempty string was inverted

---
 opm/core/utility/parameters/ParameterRequirement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterRequirement.hpp b/opm/core/utility/parameters/ParameterRequirement.hpp
index c9b19f7..670fc54 100644
--- a/opm/core/utility/parameters/ParameterRequirement.hpp
+++ b/opm/core/utility/parameters/ParameterRequirement.hpp
@@ -167,7 +167,7 @@ namespace Opm {
 	/// @return
 	struct ParameterRequirementNonEmpty {
 	    std::string operator()(const std::string& x) const {
-		if (x != "") {
+		if (x == "") {
 		    return "The string was empty.";
 		} else {
 		    return "";
-- 
2.43.0


From 62fb9de66ea334462c0414df19ea261314d97d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 085/139] fix: initializing a state with a single phase wrote
 out of bounds

---
 opm/core/simulator/BlackoilState.hpp | 3 ++-
 opm/core/simulator/TwophaseState.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/BlackoilState.hpp b/opm/core/simulator/BlackoilState.hpp
index 153c2ee..a4d0e73 100644
--- a/opm/core/simulator/BlackoilState.hpp
+++ b/opm/core/simulator/BlackoilState.hpp
@@ -45,7 +45,8 @@ namespace Opm
                 // gas in an oil-gas case.
                 // For proper initialization, one should not rely on this,
                 // but use available phase information instead.
-                sat_[num_phases*cell + 1] = 1.0;
+                // With a single phase, it has all the saturation.
+                sat_[num_phases*cell + (num_phases > 1 ? 1 : 0)] = 1.0;
             }
         }
 
diff --git a/opm/core/simulator/TwophaseState.hpp b/opm/core/simulator/TwophaseState.hpp
index e1eaa17..54b8291 100644
--- a/opm/core/simulator/TwophaseState.hpp
+++ b/opm/core/simulator/TwophaseState.hpp
@@ -45,7 +45,8 @@ namespace Opm
                 // gas in an oil-gas case.
                 // For proper initialization, one should not rely on this,
                 // but use available phase information instead.
-                sat_[num_phases_*cell + 1] = 1.0;
+                // With a single phase, it has all the saturation.
+                sat_[num_phases_*cell + (num_phases > 1 ? 1 : 0)] = 1.0;
             }
         }
 
-- 
2.43.0


From 12519222af6057e5960b664f3de2ac6b7260e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 086/139] fix: hydrostatic pressure was wrong beyond the
 contact and for single layers

---
 opm/core/simulator/initState_impl.hpp | 67 +++++++++++----------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..3aa8baa 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -193,6 +193,10 @@ namespace Opm
                 zlim[1] = std::max(zlim[1], z);
             }
 
+            // Include the datum depth, where we start.
+            zlim[0] = std::min(zlim[0], datum_z);
+            zlim[1] = std::max(zlim[1], datum_z);
+
             // We'll use a minimum stepsize of 1/100 of the z range.
             const double hmin = (zlim[1] - zlim[0])/100.0;
 
@@ -203,45 +207,30 @@ namespace Opm
             // Set up density evaluator.
             Density rho(props);
 
-            // Solve the ODE from datum_z to woc.
-            int phase = (datum_z > woc) ? 0 : 1;
-            int num_steps = int(std::ceil(std::fabs(woc - datum_z)/hmin));
-            double pval = datum_p;
-            double zval = datum_z;
-            double h = (woc - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
-            double woc_p = pval;
-
-            // Solve the ODE from datum_z to the end of the interval.
-            double z_end = (datum_z > woc) ? zlim[1] : zlim[0];
-            num_steps = int(std::ceil(std::fabs(z_end - datum_z)/hmin));
-            pval = datum_p;
-            zval = datum_z;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
-
-            // Solve the ODE from woc to the other end of the interval.
-            // Switching phase and z_end.
-            phase = (phase + 1) % 2;
-            z_end = (datum_z > woc) ? zlim[0] : zlim[1];
-            pval = woc_p;
-            zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
+            // Solve the ODE from datum_z to both ends of the interval,
+            // switching phase at the woc if it lies on the way.
+            for (int end = 0; end < 2; ++end) {
+                const double z_end = zlim[end];
+                const double z_switch = std::max(std::min(datum_z, z_end),
+                                                 std::min(std::max(datum_z, z_end), woc));
+                const double z_stop[2] = { z_switch, z_end };
+                double pval = datum_p;
+                double zval = datum_z;
+                for (int part = 0; part < 2; ++part) {
+                    const double z_start = zval;
+                    if (z_stop[part] == z_start) {
+                        continue;
+                    }
+                    const int phase = (0.5*(z_start + z_stop[part]) > woc) ? 0 : 1;
+                    const int num_steps = int(std::ceil(std::fabs(z_stop[part] - z_start)/hmin));
+                    const double h = (z_stop[part] - z_start)/double(num_steps);
+                    for (int i = 0; i < num_steps; ++i) {
+                        zval = (i + 1 == num_steps) ? z_stop[part] : z_start + (i + 1)*h;
+                        const double dp = rho(pval, phase)*gravity;
+                        pval += h*dp;
+                        press_by_z[zval] = pval;
+                    }
+                }
             }
 
             // Create monotone spline for interpolating solution.
-- 
2.43.0


From ba4795cc16b0df60dcc19ce906b89f9cd3c06d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 087/139] fix: default initial pressure of compressible states
 used water density

---
 opm/core/simulator/initState_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 3aa8baa..3fbadaf 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -442,7 +442,8 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            // All cells are above the contact, as water saturation is minimal.
+            const double woc = 1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From 003e42e6056aeb12cb272c673f68475e7f4daf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 088/139] fix: reference pressure was truncated to whole bars

---
 opm/core/simulator/initState_impl.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 3fbadaf..e2dcd65 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -326,7 +326,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (segregation_testcase) {
             // Warn against error-prone usage.
@@ -340,7 +340,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterAbove, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             double dens[2] = { props.density()[1], props.density()[0] };
             initHydrostaticPressure(grid, dens, woc, gravity, woc, ref_p, state);
         } else if (param.has("water_oil_contact")) {
@@ -355,7 +355,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props.density(), woc, gravity, woc, ref_p, state);
         } else if (param.has("init_saturation")) {
             // Initialise water saturation to init_saturation parameter.
@@ -365,7 +365,7 @@ namespace Opm
                 state.saturation()[2*cell + 1] = 1.0 - init_saturation;
             }
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[0]*init_saturation + props.density()[1]*(1.0 - init_saturation);
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -373,7 +373,7 @@ namespace Opm
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[1];
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -421,7 +421,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (param.has("water_oil_contact")) {
             // Warn against error-prone usage.
@@ -435,12 +435,12 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props, woc, gravity, woc, ref_p, state);
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
             // All cells are above the contact, as water saturation is minimal.
             const double woc = 1e100;
-- 
2.43.0


From 51bf5ee7e651db8556e8d732acba9adfb0fe6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 089/139] fix: initBlackoilStateFromDeck was declared but not
 defined

---
 opm/core/simulator/initState_impl.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index e2dcd65..495ef79 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -589,6 +589,19 @@ namespace Opm
     }
 
 
+    /// Initialize a blackoil state from input deck, including surface volumes.
+    template <class Props, class State>
+    void initBlackoilStateFromDeck(const UnstructuredGrid& grid,
+                                   const Props& props,
+                                   const EclipseGridParser& deck,
+                                   const double gravity,
+                                   State& state)
+    {
+        initStateFromDeck(grid, props, deck, gravity, state);
+        initBlackoilSurfvol(grid, props, state);
+    }
+
+
 } // namespace Opm
 
 
-- 
2.43.0


From 20da026d75dcdab69b6a224d91d13e34d2200ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 090/139] fix: incompressible simulator reported water cut and
 wells once per substep, before the step was counted

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 5b60a8f..2d5123a 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -559,14 +559,6 @@ namespace Opm
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
                         .solveGravity(&initial_porevol[0], stepsize, state);
                 }
-                watercut.push(timer.currentTime() + timer.currentStepLength(),
-                              produced[0]/(produced[0] + produced[1]),
-                              tot_produced[0]/tot_porevol_init);
-                if (wells_) {
-                    wellreport.push(props_, *wells_, state.saturation(),
-                                    timer.currentTime() + timer.currentStepLength(),
-                                    well_state.bhp(), well_state.perfRates());
-                }
             }
             transport_timer.stop();
             double tt = transport_timer.secsSinceStart();
@@ -583,6 +575,14 @@ namespace Opm
                           tot_injected, tot_produced,
                           injected, produced,
                           init_satvol);
+            watercut.push(timer.currentTime() + timer.currentStepLength(),
+                          produced[0]/(produced[0] + produced[1]),
+                          tot_produced[0]/tot_porevol_init);
+            if (wells_) {
+                wellreport.push(props_, *wells_, state.saturation(),
+                                timer.currentTime() + timer.currentStepLength(),
+                                well_state.bhp(), well_state.perfRates());
+            }
             sreport.total_time =  step_timer.secsSinceStart();
             if (output_) {
                 sreport.reportParam(tstep_os);
-- 
2.43.0


From 79f537edc43f95f5f24bca47707652d1ea943f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 091/139] fix: checking well controls without wells
 dereferenced a null pointer

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 2 +-
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 1905bce..ff36978 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -274,7 +274,7 @@ namespace Opm
         }
 
         // Well control related init.
-        check_well_controls_ = param.getDefault("check_well_controls", false);
+        check_well_controls_ = param.getDefault("check_well_controls", false) && wells_ != NULL;
         max_well_control_iterations_ = param.getDefault("max_well_control_iterations", 10);
 
         // Transport related init.
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 2d5123a..2400f02 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -373,7 +373,7 @@ namespace Opm
         }
 
         // Well control related init.
-        check_well_controls_ = param.getDefault("check_well_controls", false);
+        check_well_controls_ = param.getDefault("check_well_controls", false) && wells_ != NULL;
         max_well_control_iterations_ = param.getDefault("max_well_control_iterations", 10);
 
         // Transport related init.
-- 
2.43.0


From edbcd0d981849c0cb26fcd9f2960e98e8ce669dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 092/139] fix: pressure solved again for new well controls did
 not start from the start of the step

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 5 +++--
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index ff36978..329efb6 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -363,10 +363,11 @@ namespace Opm
             }
             bool well_control_passed = !check_well_controls_;
             int well_control_iteration = 0;
+            const std::vector<double> initial_pressure = state.pressure();
             do {
-                // Run solver.
+                // Run solver, always from the pressure at the start of the step.
                 pressure_timer.start();
-                std::vector<double> initial_pressure = state.pressure();
+                state.pressure() = initial_pressure;
                 psolver_.solve(timer.currentStepLength(), state, well_state);
 
                 // Renormalize pressure if both fluids and rock are
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 2400f02..e0ec5c7 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -461,10 +461,11 @@ namespace Opm
             }
             bool well_control_passed = !check_well_controls_;
             int well_control_iteration = 0;
+            const std::vector<double> initial_pressure = state.pressure();
             do {
-                // Run solver.
+                // Run solver, always from the pressure at the start of the step.
                 pressure_timer.start();
-                std::vector<double> initial_pressure = state.pressure();
+                state.pressure() = initial_pressure;
                 psolver_.solve(timer.currentStepLength(), state, well_state);
 
                 // Renormalize pressure if rock is incompressible, and
-- 
2.43.0


From c144e97b75c7d40185e89c296fa672f380f1797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 093/139] fix: transport substeps all started from the pore
 volumes of the whole step

---
 .../SimulatorCompressibleTwophase.cpp         | 21 ++++++++++++++++-
 .../simulator/SimulatorIncompTwophase.cpp     | 23 +++++++++++++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 329efb6..5ebb107 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -231,6 +231,19 @@ namespace Opm
 
 
     // \TODO: make CompressibleTpfa take src and bcs.
+    // Pore volumes after a fraction of the step, for which they change linearly.
+    static void interpolatePorevolume(const std::vector<double>& initial_porevol,
+                                      const std::vector<double>& porevol,
+                                      const double fraction,
+                                      std::vector<double>& result)
+    {
+        result.resize(porevol.size());
+        for (std::vector<double>::size_type c = 0; c < porevol.size(); ++c) {
+            result[c] = (1.0 - fraction)*initial_porevol[c] + fraction*porevol[c];
+        }
+    }
+
+
     SimulatorCompressibleTwophase::Impl::Impl(const parameter::ParameterGroup& param,
                                               const UnstructuredGrid& grid,
                                               const BlackoilPropertiesInterface& props,
@@ -444,9 +457,14 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            std::vector<double> substep_initial_porevol(initial_porevol);
+            std::vector<double> substep_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
+                interpolatePorevolume(initial_porevol, porevol,
+                                      double(tr_substep + 1)/double(num_transport_substeps_),
+                                      substep_porevol);
                 tsolver_.solve(&state.faceflux()[0], &state.pressure()[0],
-                               &initial_porevol[0], &porevol[0], &transport_src[0], stepsize,
+                               &substep_initial_porevol[0], &substep_porevol[0], &transport_src[0], stepsize,
                                state.saturation(), state.surfacevol());
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
@@ -459,6 +477,7 @@ namespace Opm
                 if (gravity_ != 0 && use_segregation_split_) {
                     tsolver_.solveGravity(columns_, stepsize, state.saturation(), state.surfacevol());
                 }
+                substep_initial_porevol.swap(substep_porevol);
             }
             transport_timer.stop();
             double tt = transport_timer.secsSinceStart();
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index e0ec5c7..1fcfc70 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -275,6 +275,19 @@ namespace Opm
     }
 
 
+    // Pore volumes after a fraction of the step, for which they change linearly.
+    static void interpolatePorevolume(const std::vector<double>& initial_porevol,
+                                      const std::vector<double>& porevol,
+                                      const double fraction,
+                                      std::vector<double>& result)
+    {
+        result.resize(porevol.size());
+        for (std::vector<double>::size_type c = 0; c < porevol.size(); ++c) {
+            result[c] = (1.0 - fraction)*initial_porevol[c] + fraction*porevol[c];
+        }
+    }
+
+
     static bool allNeumannBCs(const FlowBoundaryConditions* bcs)
     {
         if (bcs == NULL) {
@@ -543,8 +556,13 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            std::vector<double> substep_initial_porevol(initial_porevol);
+            std::vector<double> substep_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
-                tsolver_->solve(&initial_porevol[0], &transport_src[0], stepsize, state);
+                interpolatePorevolume(initial_porevol, porevol,
+                                      double(tr_substep + 1)/double(num_transport_substeps_),
+                                      substep_porevol);
+                tsolver_->solve(&substep_initial_porevol[0], &transport_src[0], stepsize, state);
 
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
@@ -558,8 +576,9 @@ namespace Opm
                     // Again, unfortunate but safe use of dynamic_cast.
                     // Possible solution: refactor gravity solver to its own class.
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
-                        .solveGravity(&initial_porevol[0], stepsize, state);
+                        .solveGravity(&substep_porevol[0], stepsize, state);
                 }
+                substep_initial_porevol.swap(substep_porevol);
             }
             transport_timer.stop();
             double tt = transport_timer.secsSinceStart();
-- 
2.43.0


From d3a674cb43ec6591a7f0d531e9bbcb5b41f1e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 094/139] fix: write VAG files that can be read back, with full
 coordinates

---
 opm/core/io/vag/vag.cpp | 13 ++++++++-----
 opm/core/io/vag/vag.hpp |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 75854a2..53ac1d4 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -372,16 +372,18 @@ namespace Opm
     
     void writeVagFormat(std::ostream& os,Opm::VAG& vag_grid){
 	using namespace std;
+	// coordinates must survive being written and read
+	const std::streamsize old_precision = os.precision(16);
 	os << "File in the Vag grid format\n";
-        os << "Number of vertices " ;
+        os << "Number of vertices\n" ;
         os << vag_grid.number_of_vertices << endl;;
-        os <<"Number of control volume ";
+        os <<"Number of control volume\n";
         os << vag_grid.number_of_volumes << endl;
-        os <<"Number of faces " ;
+        os <<"Number of faces\n" ;
         os << vag_grid.number_of_faces << endl;
-        os <<"Number of edges " ;
+        os <<"Number of edges\n" ;
         os << vag_grid.number_of_edges << endl;
-        os <<"Vertices      "   << vag_grid.vertices.size() << endl;
+        os <<"Vertices      "   << vag_grid.vertices.size()/3 << endl;
         writeVector(os, vag_grid.vertices,3);
         os << "Volumes->faces   " << vag_grid.volumes_to_faces.pos.size()-1 << endl;
         writePosStruct(os, vag_grid.volumes_to_faces);        
@@ -395,6 +397,7 @@ namespace Opm
         writeVector(os,vag_grid.faces_to_volumes,2);        
         os << "Edges   " << floor(vag_grid.edges.size()/2) << endl;
         writeVector(os,vag_grid.edges,2);
+        os.precision(old_precision);
         /*
         assert(vag_grid.material.size()%vag_grid.number_of_volumes==0);
         int lines= floor(vag_grid.material.size()/vag_grid.number_of_volumes);  
diff --git a/opm/core/io/vag/vag.hpp b/opm/core/io/vag/vag.hpp
index 412e4ea..ace364e 100644
--- a/opm/core/io/vag/vag.hpp
+++ b/opm/core/io/vag/vag.hpp
@@ -125,7 +125,7 @@ namespace Opm
         const sz_t nn = n;
 
         for (sz_t i = 0; i < vec.size(); ++i) {
-            os << vec[i] << (((i % nn) == 0) ? '\n' : ' ');
+            os << vec[i] << ((((i + 1) % nn) == 0) ? '\n' : ' ');
         }
 
         if ((vec.size() % nn) != 0) {
-- 
2.43.0


From 6859e9d495e8bd49cb16f1530271b0b54dfe45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 095/139] fix: VAG structures can be read and converted into
 again

---
 opm/core/io/vag/vag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 53ac1d4..78f3759 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -52,6 +52,7 @@ namespace Opm
 	//PosStruct pos_struct;
 	pos_struct.pos.resize(n+1);
 	pos_struct.pos[0]=0;
+	pos_struct.value.clear();
 	for(int i=0;i< n;++i){
 	    int number;
 	    is >> number ;
@@ -180,6 +181,7 @@ namespace Opm
 		    is >> number;
 		    cout << "Material number  " << number << endl;
 		    // we read all the rest into doubles		
+		    vag_grid.material.clear();
 		    while(!is.eof()){
 			double value;
 			is >> value;
@@ -356,6 +358,8 @@ namespace Opm
         // fill face_to_egdes
 	vag_grid.number_of_edges=edges.size();
 	vag_grid.faces_to_edges.pos.resize(vag_grid.number_of_faces+1);
+	vag_grid.faces_to_edges.pos[0]=0;
+	vag_grid.faces_to_edges.value.clear();
 	for(int i=0;i < grid.number_of_faces;++i){
             int ne=grid.face_nodepos[i+1]-grid.face_nodepos[i];
 	    vag_grid.faces_to_edges.pos[i+1]=vag_grid.faces_to_edges.pos[i]+ne;	    
-- 
2.43.0


From 7de6f8c6335fbc40ebfe6a83074298c06fd255c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 096/139] fix: refuse VAG files which break off or hold words
 for numbers

---
 opm/core/io/vag/vag.cpp | 58 ++++++++++++++++++++++-------------------
 opm/core/io/vag/vag.hpp |  5 +++-
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 78f3759..f1d34bf 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -47,6 +47,17 @@
 #include <map>
 namespace Opm
 {
+    namespace {
+	// Read the number of entries that follow.
+	int readNumber(std::istream& is){
+	    int number;
+	    if(!(is >> number) || number < 0){
+		THROW("Failed to read number of entries in vag file");
+	    }
+	    return number;
+	}
+    }
+
     void readPosStruct(std::istream& is,int n,PosStruct& pos_struct){
 	using namespace std;
 	//PosStruct pos_struct;
@@ -54,13 +65,14 @@ namespace Opm
 	pos_struct.pos[0]=0;
 	pos_struct.value.clear();
 	for(int i=0;i< n;++i){
-	    int number;
-	    is >> number ;
+	    int number = readNumber(is);
 	    //cout <<number << endl;
 	    pos_struct.pos[i+1]=pos_struct.pos[i]+number;
 	    for(int j=0;j< number;++j){
 		int value;
-		is >> value;
+		if(!(is >> value)){
+		    THROW("Failed to read pos structure");
+		}
 		//	cout << value << " ";
 		pos_struct.value.push_back(value);
 	    }
@@ -93,9 +105,8 @@ namespace Opm
     void readVagGrid(std::istream& is,Opm::VAG& vag_grid){
 	using namespace std;
 	using namespace Opm;
-	while (!is.eof()) {
-	    string keyword;
-	    is >> keyword;	
+	string keyword;
+	while (is >> keyword) {
 	    //cout << keyword<< endl;
 	    if(keyword == "Number"){
 		string stmp;
@@ -104,8 +115,7 @@ namespace Opm
 		    string entity;
 		    is >> entity;
 		    getline(is,stmp);
-		    int number;
-		    is >> number;
+		    int number = readNumber(is);
 		    if(entity=="vertices"){
 			vag_grid.number_of_vertices=number;
 		    }else if((entity=="volumes") || (entity=="control")){
@@ -123,33 +133,28 @@ namespace Opm
 	    }else{
 		// read geometry defined by vertices
 		if(keyword=="Vertices"){
-		    int number;
-		    is >> number;	   	    
+		    int number = readNumber(is);
 		    vag_grid.vertices.resize(3*number);// assume 3d data
 		    readVector(is,vag_grid.vertices);
 		}
 		// here starts the reding of all pos structures
 		else if(keyword=="Volumes->Faces" || keyword=="Volumes->faces"){
 		    //vag_grid.volumes_to_faces=
-		    int number;
-		    is >> number;	
+		    int number = readNumber(is);
 		    readPosStruct(is,number,vag_grid.volumes_to_faces);
 		    cout << "Volumes->Faces: Number of " << number << endl;
 		}else if(keyword=="Faces->edges" || keyword=="Faces->Edges" ||  keyword=="Faces->Edgess"){
-		    int number;
-		    is >> number;	   
+		    int number = readNumber(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.faces_to_edges);
 		    cout << "Faces->edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Vertices" || keyword=="Faces->vertices"){
-		    int number;
-		    is >> number;	   
+		    int number = readNumber(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.faces_to_vertices);
 		    cout << "Faces->Vertices: Number of " << number << endl;   
 		}else if(keyword=="Volumes->Vertices" || keyword=="Volumes->Verticess"){
-		    int number;
-		    is >> number;	   
+		    int number = readNumber(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.volumes_to_vertices);
 		    cout << "Volumes->Vertices: Number of " << number << endl;   
@@ -157,18 +162,16 @@ namespace Opm
 	    
 		//  read simple mappings
 		else if(keyword=="Edge" || keyword=="Edges"){
-		    int number;
-		    is >> number;	   	    
+		    int number = readNumber(is);
 		    vag_grid.edges.resize(2*number);
 		    readVector(is,vag_grid.edges);
 		    cout << "Edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Volumes" || keyword=="Faces->Control"){
-		    int number;
 		    if(keyword=="Faces->Control"){
 			string vol;
 			is >> vol;
 		    }
-		    is >> number;
+		    int number = readNumber(is);
 		    vag_grid.faces_to_volumes.resize(2*number);
 		    readVector(is,vag_grid.faces_to_volumes);
 		    cout << "Faces->Volumes: Number of " << number << endl;   
@@ -177,17 +180,18 @@ namespace Opm
 		else if(keyword=="Material"){
 		    string snum;
 		    is >> snum;
-		    int number;
-		    is >> number;
+		    int number = readNumber(is);
 		    cout << "Material number  " << number << endl;
 		    // we read all the rest into doubles		
 		    vag_grid.material.clear();
-		    while(!is.eof()){
-			double value;
-			is >> value;
+		    double value;
+		    while(is >> value){
 			//cout << value << endl;
 			vag_grid.material.push_back(value);
 		    }
+		    if(!is.eof()){
+			THROW("Failed to read material");
+		    }
 		}else{
 		    //cout << "keyword;
 		}
diff --git a/opm/core/io/vag/vag.hpp b/opm/core/io/vag/vag.hpp
index ace364e..534e959 100644
--- a/opm/core/io/vag/vag.hpp
+++ b/opm/core/io/vag/vag.hpp
@@ -39,6 +39,7 @@
 
 
 #include <opm/core/grid.h>
+#include <opm/core/utility/ErrorMacros.hpp>
 #include <istream>
 #include <ostream>
 #include <string>
@@ -109,7 +110,9 @@ namespace Opm
     void readVector(std::istream& is,std::vector<T>& vec){
 	using namespace std;
 	for(int i=0;i< int(vec.size());++i){
-	    is >> vec[i];
+	    if (!(is >> vec[i])) {
+		THROW("Failed to read vector");
+	    }
 	}
     }
     /**
-- 
2.43.0


From bc294bb5e4b0e1ee22e118b5042857cc9e3e293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 097/139] fix: write chopped grids with full precision

---
 opm/core/io/eclipse/CornerpointChopper.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/io/eclipse/CornerpointChopper.hpp b/opm/core/io/eclipse/CornerpointChopper.hpp
index a757f4e..8fab5f2 100644
--- a/opm/core/io/eclipse/CornerpointChopper.hpp
+++ b/opm/core/io/eclipse/CornerpointChopper.hpp
@@ -281,6 +281,8 @@ namespace Opm
                 std::cerr << "Could not open file " << filename << "\n";
                 throw std::runtime_error("Could not open output file.");
             }
+            // Six digits would move nodes of grids far from the origin.
+            out.precision(16);
             out << "SPECGRID\n" << new_dims_[0] << ' ' << new_dims_[1] << ' ' << new_dims_[2]
                 << " 1 F\n/\n\n";
             out << "COORD\n";
-- 
2.43.0


From 8b9d464b50d743fc6deda25eebc018cb2687de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 098/139] fix: grid limits and dips of decks that give their
 size by DIMENS

---
 opm/core/io/eclipse/EclipseGridInspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index fed61a8..d7aa7a7 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -259,8 +259,8 @@ void EclipseGridInspector::checkLogicalCoords(int i, int j, int k) const
 
 std::tr1::array<double, 6> EclipseGridInspector::getGridLimits() const
 {
-    if (! (parser_.hasField("COORD") && parser_.hasField("ZCORN") && parser_.hasField("SPECGRID")) ) {
-        throw std::runtime_error("EclipseGridInspector: Grid does not have SPECGRID, COORD, and ZCORN, can't find dimensions.");
+    if (! (parser_.hasField("COORD") && parser_.hasField("ZCORN")) ) {
+        throw std::runtime_error("EclipseGridInspector: Grid does not have COORD and ZCORN, can't find dimensions.");
     }
 
     std::vector<double> coord = parser_.getFloatingPointValue("COORD");
-- 
2.43.0


From 3598d3389f6d26b7a7ddd354ebfa8d8a22f01c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 099/139] fix: splitting disconnected blocks ignored the
 connections of the first cell

---
 opm/core/pressure/msmfem/partition.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..b1d6809 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,8 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From 53167038e78ed4bf69f4b253e141cd9f9eac0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 100/139] fix: multi-scale pressure solution of two blocks was
 singular

---
 opm/core/pressure/msmfem/ifsh_ms.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/ifsh_ms.c b/opm/core/pressure/msmfem/ifsh_ms.c
index 2a08797..e3e6b7a 100644
--- a/opm/core/pressure/msmfem/ifsh_ms.c
+++ b/opm/core/pressure/msmfem/ifsh_ms.c
@@ -488,7 +488,11 @@ ifsh_ms_assemble(const double        *src   ,
     }
 
     /* Remove zero eigenvalue */
-    h->A->sa[0] *= 2;
+    if (h->A->m == 1) {
+        h->A->sa[0] = 1.0;      /* One interface: there is no other */
+    } else {
+        h->A->sa[0] *= 2;
+    }
 }
 
 
-- 
2.43.0


From 2769daf907424215e744e0be127f08c75a0d10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 101/139] fix: multi-scale basis functions used the mobility of
 the next cell

---
 opm/core/pressure/msmfem/coarse_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index ec746e1..76a86e6 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1204,7 +1204,7 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
     int c, i;
 
     for (c = i = 0; c < nc; c++) {
-        for (; i < m->pconn2[c]; i++) {
+        for (; i < m->pconn2[c + 1]; i++) {
             Binv[i] *= totmob[c];
         }
     }
-- 
2.43.0


From 42acd2a3f54ac384dea7345fbe74e50cdad64acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 102/139] fix: multi-scale coarse inner products contained the
 mobility twice

---
 opm/core/pressure/msmfem/coarse_sys.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 76a86e6..a6388c8 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1211,6 +1211,24 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
 }
 
 
+/* ---------------------------------------------------------------------- */
+/* Remove the mobility effects included by Binv_scale_mobility(). */
+/* ---------------------------------------------------------------------- */
+static void
+Binv_unscale_mobility(int nc, struct coarse_sys_meta *m,
+                      const double *totmob, double *Binv)
+/* ---------------------------------------------------------------------- */
+{
+    int c, i;
+
+    for (c = i = 0; c < nc; c++) {
+        for (; i < m->pconn2[c + 1]; i++) {
+            Binv[i] /= totmob[c];
+        }
+    }
+}
+
+
 /* ---------------------------------------------------------------------- */
 /* Project BF flux values for coarse face 'cf' onto continuous flux
  * field. */
@@ -1485,6 +1503,10 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
             }
         }
 
+        /* Mobility enters the coarse inner products when these are
+         * assembled (coarse_sys_compute_Binv()). */
+        Binv_unscale_mobility(g->number_of_cells, m, totmob, Binv);
+
         coarse_sys_compute_cell_ip(g->number_of_cells,
                                    m->max_ngconn,
                                    ct->nblocks,
-- 
2.43.0


From ae7e4b5623c3b02f486b23ac73d1446ca755c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 103/139] fix: destroying a well list whose creation failed
 dereferenced a null pointer

---
 opm/core/wells/wells.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 24759f7..ef87008 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -410,11 +410,12 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
+        /* No management data means no wells (creation failed). */
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             well_controls_destroy(W->ctrls[w]);
         }
 
-        for (w = 0; w < m->well_cpty; w++) {
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             free(W->name[w]);
         }
 
-- 
2.43.0


From bae1af3b35629b2c97e1ed7473e98645e94430a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 104/139] fix: control sets leaked when enlarging a well list
 ran out of memory

---
 opm/core/wells/wells.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index ef87008..2d5dfc4 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -260,8 +260,10 @@ initialise_new_wells(int nwells, struct Wells *W)
     }
 
     if (! ok) {
-        for (; w < nwells; w++) {
-            W->ctrls[w] = NULL;
+        /* The capacity does not grow, so nobody else knows of the
+         * control sets that were created. */
+        while (w > m->well_cpty) {
+            well_controls_destroy(W->ctrls[--w]);
         }
     }
 
-- 
2.43.0


From d12a3796634d06b6dcd0ebb14fbb716a63fdb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 105/139] fix: reading a grid silently lost the index map when
 out of memory

---
 opm/core/grid/grid.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/opm/core/grid/grid.c b/opm/core/grid/grid.c
index 58179b7..adb6478 100644
--- a/opm/core/grid/grid.c
+++ b/opm/core/grid/grid.c
@@ -212,7 +212,7 @@ allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
                     G->global_cell =
                         malloc(dimens[GRID_NCELLS] * sizeof *G->global_cell);
 
-                    /* Allocation failure checked elsewhere. */
+                    /* Allocation failure checked in read_grid_cells(). */
                 }
 
                 G->number_of_cells = (int) dimens[GRID_NCELLS];
@@ -448,13 +448,7 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
                     i += 1;
                 }
             }
-            else {
-                int discard;
-
-                while ((i < nc) && (fscanf(fp, " %d", & discard) == 1)) {
-                    i += 1;
-                }
-            }
+            /* Otherwise allocation failed, whence 'i' remains zero. */
         }
         else {
             assert (G->global_cell == NULL);
-- 
2.43.0


From 517169797fa316c8b13641b09da50e7974845f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 106/139] fix: compressible source list was left dangling when
 it ran out of memory

---
 opm/core/pressure/tpfa/compr_source.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index eef23bb..f25290f 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -50,14 +50,15 @@ expand_source_tables(int alloc, struct compr_src *src)
     v = realloc(src->flux      , alloc * 1            * sizeof *v);
     s = realloc(src->saturation, alloc * src->nphases * sizeof *s);
 
-    if ((c == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);   free(c);
+    /* The old blocks are gone wherever realloc() succeeded. */
+    if (c != NULL) { src->cell       = c; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
 
+    if ((c == NULL) || (v == NULL) || (s == NULL)) {
         alloc = 0;
     } else {
-        src->cell = c;  src->cpty       = alloc;
-        src->flux = v;  src->saturation = s;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 5384ac393ea8d3b48da89058820079889e4ae542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 107/139] fix: compressible boundary conditions were left
 dangling when they ran out of memory

---
 opm/core/pressure/tpfa/compr_bc.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32dda5f..9e1fc28 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -53,16 +53,18 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     v = realloc(bc->flux      , alloc * 1           * sizeof *v);
     s = realloc(bc->saturation, alloc * bc->nphases * sizeof *s);
 
+    /* The old blocks are gone wherever realloc() succeeded. */
+    if (t != NULL) { bc->type       = t; }
+    if (f != NULL) { bc->face       = f; }
+    if (p != NULL) { bc->press      = p; }
+    if (v != NULL) { bc->flux       = v; }
+    if (s != NULL) { bc->saturation = s; }
+
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);  free(p);  free(f);  free(t);
-
         alloc = 0;
     } else {
-        bc->type       = t;  bc->face = f;  bc->cpty = alloc;
-        bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
+        bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 4cbafade3e3f20c14320c426bd70c58122e92727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 108/139] fix: transport source list was left dangling when it
 ran out of memory

---
 opm/core/transport/implicit/transport_source.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opm/core/transport/implicit/transport_source.c b/opm/core/transport/implicit/transport_source.c
index 8daf198..3af4bd7 100644
--- a/opm/core/transport/implicit/transport_source.c
+++ b/opm/core/transport/implicit/transport_source.c
@@ -54,17 +54,19 @@ expand_source_tables(int alloc, struct TransportSource *src)
     s = realloc(src->saturation, alloc * src->nphase * sizeof *s);
     z = realloc(src->surfvolume, alloc * src->nphase * sizeof *z);
 
+    /* The old blocks are gone wherever realloc() succeeded. */
+    if (c != NULL) { src->cell       = c; }
+    if (p != NULL) { src->pressure   = p; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
+    if (z != NULL) { src->surfvolume = z; }
+
     if ((c == NULL) ||
         (p == NULL) || (v == NULL) ||
         (s == NULL) || (z == NULL)) {
-
-        free(z);  free(s);  free(v);  free(p);   free(c);
-
         alloc = 0;
     } else {
-        src->cell       = c;  src->cpty       = alloc;
-        src->pressure   = p;  src->flux       = v;
-        src->saturation = s;  src->surfvolume = z;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 8e1377a63d134c85b4c158f0fcceb4d6540e3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 109/139] fix: creating a matrix released uninitialised
 pointers when out of memory

---
 opm/core/linalg/sparse_sys.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 62c7dce..fcf5214 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -38,15 +38,14 @@ csrmatrix_new_count_nnz(size_t m)
     new = malloc(1 * sizeof *new);
     if (new != NULL) {
         new->ia = malloc((m + 1) * sizeof *new->ia);
+        new->ja = NULL;
+        new->sa = NULL;
 
         if (new->ia != NULL) {
             for (i = 0; i < m + 1; i++) { new->ia[i] = 0; }
 
             new->m   = m;
             new->nnz = 0;
-
-            new->ja  = NULL;
-            new->sa  = NULL;
         } else {
             csrmatrix_delete(new);
             new = NULL;
-- 
2.43.0


From 596f69bbb56536c9da35b9e94d04601978f15140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 110/139] fix: compressible pressure solver never released its
 half-face map

---
 opm/core/pressure/tpfa/cfs_tpfa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa.c b/opm/core/pressure/tpfa/cfs_tpfa.c
index 528e1e9..cbc0b0e 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa.c
@@ -133,6 +133,7 @@ impl_deallocate(struct cfs_tpfa_impl *pimpl)
     if (pimpl != NULL) {
         free              (pimpl->ddata);
         deallocate_densrat(pimpl->ratio);
+        free              (pimpl->f2hf);
     }
 
     free(pimpl);
-- 
2.43.0


From e8a9088bca095064f2eca8e13786b97e4fb11c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 111/139] fix: hybrid system released an uninitialised pointer
 when out of memory

---
 opm/core/pressure/mimetic/hybsys.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 13da354..746dd73 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -49,14 +49,13 @@ hybsys_allocate_symm(int max_nconn, int nc, int nconn_tot)
         new->L   = malloc(nc                    * sizeof *new->L  );
         new->q   = malloc(nc                    * sizeof *new->q  );
         new->F1  = malloc(nconn_tot             * sizeof *new->F1 );
+        new->F2  = new->F1;
 
         if ((new->one == NULL) || (new->r == NULL) || (new->S  == NULL) ||
             (new->L   == NULL) || (new->q == NULL) || (new->F1 == NULL)) {
             hybsys_free(new);
 
             new = NULL;
-        } else {
-            new->F2 = new->F1;
         }
     }
 
-- 
2.43.0


From 2de971e754ff2ac04ba53239ebba4d50683c8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 112/139] fix: hybrid system silently dropped all wells when
 out of memory

---
 opm/core/pressure/mimetic/hybsys_global.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 8feff59..077817f 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -287,19 +287,21 @@ hybsys_define_globconn(struct UnstructuredGrid *G, well_t *W)
     nw = 0;
     wia = NULL;
     if (W != NULL) {
-        ok = allocate_cell_wells(G->number_of_cells, W, &cwell_pos, &cwells);
-        if (ok) {
+        if (allocate_cell_wells(G->number_of_cells, W, &cwell_pos, &cwells)) {
             derive_cell_wells(G->number_of_cells, W, cwell_pos, cwells);
+            nw = W->number_of_wells;
+        } else {
+            /* Either no well connections or out of memory. */
+            ok = cwell_pos != NULL;
         }
-        nw = ok ? W->number_of_wells : 0;
 
         if (nw > 0) {
             wia = allocate_well_dofset(G, W);
-            if (wia == NULL) { nw = 0; }
+            if (wia == NULL) { nw = 0; ok = 0; }
         }
     }
 
-    A = csrmatrix_new_count_nnz(G->number_of_faces + nw);
+    A = ok ? csrmatrix_new_count_nnz(G->number_of_faces + nw) : NULL;
 
     if (A != NULL) {
         count_conn_per_row_grid(G, A);
-- 
2.43.0


From 14d6dca1bcab9617cc12eca2d8ee737de48bfb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 113/139] fix: coarse neighbour list lost an entry when out of
 memory

---
 opm/core/pressure/msmfem/coarse_conn.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 065bece..c3d4688 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -220,6 +220,8 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
 {
     int i, j, p, t, nmove, ret;
 
+    struct block_neighbour *bn;
+
     assert (bns != NULL);
 
     ret = 1;
@@ -254,16 +256,18 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
             }
 
             if (ret >= 0) {
-                if (i < bns->nneigh) {
-                    nmove = bns->nneigh - i;
+                bn = block_neighbour_allocate(expct_nconn);
 
-                    memmove(bns->neigh + i + 1, bns->neigh + i + 0,
-                            nmove * sizeof *bns->neigh);
-                }
+                if (bn != NULL) {
+                    if (i < bns->nneigh) {
+                        nmove = bns->nneigh - i;
+
+                        memmove(bns->neigh + i + 1, bns->neigh + i + 0,
+                                nmove * sizeof *bns->neigh);
+                    }
 
-                bns->neigh[i] = block_neighbour_allocate(expct_nconn);
+                    bns->neigh[i] = bn;
 
-                if (bns->neigh[i] != NULL) {
                     ret = block_neighbour_insert_fconn(fconn, bns->neigh[i]);
 
                     bns->neigh[i]->b = b;
-- 
2.43.0


From 802c6b7a01a85f8bafa2e5941ed26f4d41037fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 114/139] fix: coarse topology was built from incomplete faces
 when out of memory

---
 opm/core/pressure/msmfem/coarse_conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index c3d4688..4b6637a 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -594,7 +594,11 @@ coarse_topology_create(int nc, int nf, int expct_nconn,
         ncoarse_f = derive_block_faces(nf, nblocks, expct_nconn,
                                        p, neighbours, bns);
 
-        topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        if (ncoarse_f >= 0) {
+            topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        } else {
+            topo = NULL;
+        }
 
         for (b = 0; b < nblocks; b++) {
             block_neighbours_deallocate(bns[b]);
-- 
2.43.0


From 7286b7b7a281cd651cde164469e2fb16d2a0d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 115/139] fix: coarse topology silently lost its fine faces
 when out of memory

---
 opm/core/pressure/msmfem/coarse_conn.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 4b6637a..3c662b6 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -528,10 +528,7 @@ coarse_topology_build(int ncoarse_f, int nblk,
                 new->subfacepos = malloc((ncoarse_f + 1) * sizeof *new->subfacepos);
                 new->subfaces   = malloc(nsubf           * sizeof *new->subfaces);
 
-                if ((new->subfacepos == NULL) || (new->subfaces == NULL)) {
-                    free(new->subfaces);   new->subfaces   = NULL;
-                    free(new->subfacepos); new->subfacepos = NULL;
-                } else {
+                if (new->subfacepos != NULL) {
                     for (i = 0; i < ncoarse_f + 1; i++) {
                         new->subfacepos[i] = 0;
                     }
@@ -540,7 +537,9 @@ coarse_topology_build(int ncoarse_f, int nblk,
 
             new->blkfaces = malloc(nblkf * sizeof *new->blkfaces);
 
-            if (new->blkfaces == NULL) {
+            if ((new->blkfaces == NULL) ||
+                ((nsubf > 0) &&
+                 ((new->subfacepos == NULL) || (new->subfaces == NULL)))) {
                 coarse_topology_destroy(new);
                 new = NULL;
             } else {
-- 
2.43.0


From a06add24530d8a542418f85e732b7a3febbc6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 116/139] fix: multi-scale basis functions used uninitialised
 inner products when out of memory

---
 opm/core/pressure/msmfem/coarse_sys.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index a6388c8..87d9fdc 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -541,6 +541,8 @@ compute_fs_ip(struct UnstructuredGrid *g, const double *perm,
 
             p2 += nconn * nconn;
         }
+    } else {
+        free(Binv);  Binv = NULL;
     }
 
     free(htrans);
-- 
2.43.0


From 7ac81c1bd05007ccc38f8a0739c0e80cf6758453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 117/139] fix: multi-scale system released uninitialised
 pointers when out of memory

---
 opm/core/pressure/msmfem/coarse_sys.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 87d9fdc..6027a8e 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -728,6 +728,7 @@ blkdof_fill(struct coarse_topology *ct,
 
     assert(nb > 0);
 
+    sys->blkdof     = NULL;
     sys->blkdof_pos = malloc((nb + 1) * sizeof *sys->blkdof_pos);
 
     if (sys->blkdof_pos != NULL) {
@@ -831,6 +832,11 @@ coarse_sys_allocate(struct coarse_topology *ct,
 
         assert(nb > 0);
 
+        new->dof2conn  = NULL;
+        new->basis_pos = NULL;   new->cell_ip_pos = NULL;
+        new->basis     = NULL;   new->cell_ip     = NULL;
+        new->Binv      = NULL;
+
         alloc_ok = blkdof_fill(ct, m, new);
 
         if (alloc_ok) {
-- 
2.43.0


From cd783022f255ade3c43d29c135698a119e6e916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 118/139] fix: multi-scale system was returned without contents
 when out of memory

---
 opm/core/pressure/msmfem/coarse_sys.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 6027a8e..60f161c 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1522,6 +1522,9 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
                                    Binv,
                                    m->pb2c, m->b2c,
                                    sys);
+    } else {
+        coarse_sys_destroy(sys);
+        sys = NULL;
     }
 
     bf_asm_data_deallocate(bf_asm);
-- 
2.43.0


From dee86138b07388c29c71ed95df2ac3ef58285075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 119/139] fix: multi-scale inner products did not report
 running out of memory

---
 opm/core/pressure/msmfem/coarse_sys.c | 40 +++++++++++++++++----------
 opm/core/pressure/msmfem/coarse_sys.h |  2 +-
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 60f161c..a6b2c8d 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1458,7 +1458,7 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
                      LocalSolver             linsolve)
 /* ---------------------------------------------------------------------- */
 {
-    int                     cf;
+    int                     cf, ok;
     size_t                  nlocf;
     double                 *Binv, *w;
     struct coarse_sys_meta *m;
@@ -1476,8 +1476,10 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
         sys    = coarse_sys_allocate(ct, m);
     }
 
-    if ((Binv != NULL) && (w != NULL) &&
-        (bf_asm != NULL) && (sys != NULL)) {
+    ok = (Binv   != NULL) && (w   != NULL) &&
+         (bf_asm != NULL) && (sys != NULL);
+
+    if (ok) {
 
         /* Provide reverse BF->face mapping for fs flux reconstruction */
         map_dof_to_conn(ct, m, sys);
@@ -1515,14 +1517,16 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
          * assembled (coarse_sys_compute_Binv()). */
         Binv_unscale_mobility(g->number_of_cells, m, totmob, Binv);
 
-        coarse_sys_compute_cell_ip(g->number_of_cells,
-                                   m->max_ngconn,
-                                   ct->nblocks,
-                                   g->cell_facepos,
-                                   Binv,
-                                   m->pb2c, m->b2c,
-                                   sys);
-    } else {
+        ok = coarse_sys_compute_cell_ip(g->number_of_cells,
+                                        m->max_ngconn,
+                                        ct->nblocks,
+                                        g->cell_facepos,
+                                        Binv,
+                                        m->pb2c, m->b2c,
+                                        sys);
+    }
+
+    if (! ok) {
         coarse_sys_destroy(sys);
         sys = NULL;
     }
@@ -1568,9 +1572,11 @@ coarse_sys_destroy(struct coarse_sys *sys)
  * sys->cell_ip, a packed representation of the IP pairs (one col per
  * cell per block).
  *
- * Allocates work arrays and may fail.  Does currently not report failure.*/
+ * Allocates work arrays.
+ *
+ * Returns one (1) if successful, and zero (0) otherwise. */
 /* ---------------------------------------------------------------------- */
-void
+int
 coarse_sys_compute_cell_ip(int                nc,
                            int                max_nconn,
                            int                nb,
@@ -1581,7 +1587,7 @@ coarse_sys_compute_cell_ip(int                nc,
                            struct coarse_sys *sys)
 /* ---------------------------------------------------------------------- */
 {
-    int i, i1, i2, b, c, n, bf, *pconn2;
+    int i, i1, i2, b, c, n, bf, ok, *pconn2;
     int max_nbf, nbf, loc_nc;
 
     size_t p, nbf_pairs, bf_off, bf_sz;
@@ -1604,7 +1610,9 @@ coarse_sys_compute_cell_ip(int                nc,
                       (max_nbf   * max_nbf  ))  /* IP */
                      * sizeof *work);
 
-    if ((pconn2 != NULL) && (work != NULL)) {
+    ok = (pconn2 != NULL) && (work != NULL);
+
+    if (ok) {
         BI  = work + 0                      ;
         Psi = BI   + (max_nconn * max_nconn);
         IP  = Psi  + (max_nconn * max_nbf  );
@@ -1723,6 +1731,8 @@ coarse_sys_compute_cell_ip(int                nc,
     }
 
     free(work);  free(pconn2);
+
+    return ok;
 }
 
 
diff --git a/opm/core/pressure/msmfem/coarse_sys.h b/opm/core/pressure/msmfem/coarse_sys.h
index 146a7df..58ce866 100644
--- a/opm/core/pressure/msmfem/coarse_sys.h
+++ b/opm/core/pressure/msmfem/coarse_sys.h
@@ -61,7 +61,7 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
 void
 coarse_sys_destroy(struct coarse_sys *sys);
 
-void
+int
 coarse_sys_compute_cell_ip(int                nc,
                            int                max_nconn,
                            int                nb,
-- 
2.43.0


From 59bf5bd406d2408c86e8895dd908a04163193e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 120/139] fix: DATES accepts several comment lines and comments
 before its final slash

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 2 ++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a476cd1..9a20acc 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -243,8 +243,10 @@ namespace
 
     inline boost::gregorian::date readDate(std::istream& is)
     {
+        is >> ignoreWhitespace;
         while (is.peek() == int('-')) {
             is >> ignoreLine;   // This line is a comment
+            is >> ignoreWhitespace;
         }
         int day, year;
         std::string month_name;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 93c1485..246c7fe 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -338,6 +338,10 @@ struct DATES : public SpecialBase
         while(is) {
             dates.push_back(readDate(is));
             is >> ignoreWhitespace;
+            while (is.peek() == int('-')) {
+                is >> ignoreLine;   // This line is a comment
+                is >> ignoreWhitespace;
+            }
             if (is.peek() == int('/')) {
                 is >> ignoreLine;
                 break;
-- 
2.43.0


From b636bdd63e241ce5c93205d67ed0b3e5131d4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 121/139] fix: defaulted table column with a single given value
 read past the end of the column

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 9a20acc..458ba2d 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -409,6 +409,11 @@ namespace
                     for (int i=0; i<int(indx.size()); ++i) {
                         table[k][indx[i]] = defaultOut;
                     }
+                } else if (xv.size() == 1) {
+                    // A single value specified, nothing to interpolate between.
+                    for (int i=0; i<int(indx.size()); ++i) {
+                        table[k][indx[i]] = yv[0];
+                    }
                 } else if (defaultInterpolation) {
                     // Interpolate
                     for (int i=0; i<int(indx.size()); ++i) {
-- 
2.43.0


From d2308a036e36049129ee5ee59b72fffe1c9356b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 122/139] fix: capillary pressure of exactly -1 in SWOF and
 SGOF was taken for a defaulted entry

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 458ba2d..3d7fe34 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -184,10 +184,10 @@ namespace
 
 
     // Keywords SGOF and SWOF. Reads data until '/' or an error is encountered.
-    // Default values represented by 1* is replaced by -1. Use linear interpolation
-    // outside this function to replace -1.
+    // Default values represented by 1* is replaced by default_flag, which must not
+    // be a legal value. Use linear interpolation outside this function to replace it.
     template<typename T>
-    inline void readRelPermTable(std::istream& is, std::vector<T>& data)
+    inline void readRelPermTable(std::istream& is, std::vector<T>& data, T default_flag)
     {
 	data.clear();
 	while (is) {
@@ -209,7 +209,7 @@ namespace
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
 		    ASSERT(int(candidate) == 1);
-		    data.push_back(-1); // Set new flag for interpolation.
+		    data.push_back(default_flag); // Set new flag for interpolation.
 		} else {
 		    data.push_back(candidate);
 		}
@@ -379,18 +379,19 @@ namespace
 	}
     }
 
-    // Replace default values -1 by linear interpolation
+    // Replace default values (default_flag) by linear interpolation
     inline void insertDefaultValues(std::vector<std::vector<double> >& table,
                                     int ncol,
                                     double defaultOut = 0.0,
-                                    bool defaultInterpolation = true)
+                                    bool defaultInterpolation = true,
+                                    double default_flag = -1.0)
     {
 	const int sz = table[0].size();
 	for (int k=1; k<ncol; ++k) {
 	    std::vector<int> indx;
 	    std::vector<double> x;
 	    for (int i=0; i<sz; ++i) {
-		if (table[k][i] == -1) {
+		if (table[k][i] == default_flag) {
 		    indx.push_back(i);
 		    x.push_back(table[0][i]);    
 		}
@@ -398,7 +399,7 @@ namespace
 	    if (!indx.empty()) {
 		std::vector<double> xv, yv;
 		for (int i=0; i<sz; ++i) {
-		    if (table[k][i] != -1) {
+		    if (table[k][i] != default_flag) {
 			xv.push_back(table[0][i]);		    
 			yv.push_back(table[k][i]);		    
 		    }
@@ -433,11 +434,13 @@ namespace
     inline void readSGWOF(std::istream& is, table_t& relperm_table,
 			  const std::string& field_name, int ncol)
     {
+	// Capillary pressures may well be negative, including -1.
+	const double default_flag = -1.0e100;
 	std::vector<double> record;
 	std::vector<std::vector<double> > table(ncol);	
 	while (!is.eof()) {
 	    record.clear();
-	    readRelPermTable(is, record);
+	    readRelPermTable(is, record, default_flag);
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
@@ -447,7 +450,7 @@ namespace
 		    table[k][i] = record[++n];
 		}
 	    }
-	    insertDefaultValues(table, ncol);
+	    insertDefaultValues(table, ncol, 0.0, true, default_flag);
 	    relperm_table.push_back(table);
 
 	    int action = next_action(is); // 0:continue  1:return  2:throw
-- 
2.43.0


From 02eea1fc1a100c5bd348b96b417ee36bd42483d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 123/139] fix: ENPTVD and ENKRVD accept comments and blank
 lines before their slashes

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 16 ++++++++++++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     |  6 ++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 3d7fe34..c017e21 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -78,6 +78,22 @@ namespace
 	return is;
     }
 
+    // Ignores whitespace and lines starting with two dashes.
+    inline std::istream& ignoreWhitespaceAndComments(std::istream& is)
+    {
+        is >> ignoreWhitespace;
+        while (is.peek() == int('-')) {
+            is.ignore();
+            const bool comment = is.peek() == int('-');
+            is.putback('-');
+            if (!comment) {
+                break;          // Negative number
+            }
+            is >> ignoreLine >> ignoreWhitespace;
+        }
+        return is;
+    }
+
     inline std::string readString(std::istream& is)
     {
 	std::string string_candidate;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 246c7fe..a15bf06 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -2314,6 +2314,7 @@ struct ENPTVD : public SpecialBase {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
         while (!is.eof()) {
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2338,7 +2339,7 @@ struct ENPTVD : public SpecialBase {
             sub_table[2].push_back(data[2]); //swcr
             sub_table[3].push_back(data[3]); //swu
             sub_table[4].push_back(data[7]); //sowcr
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 if (sub_table[0].size() >= 2) {
@@ -2401,6 +2402,7 @@ struct ENKRVD : public SpecialBase {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
         while (!is.eof()) {
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2425,7 +2427,7 @@ struct ENKRVD : public SpecialBase {
             sub_table[2].push_back(data[3]); //kro
             sub_table[3].push_back(data[4]); //krw(sowcr)
             sub_table[4].push_back(data[7]); //kro(swcr)
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 if (sub_table[0].size() >= 2) {
-- 
2.43.0


From 45993a8846b3ccb0d7608fb7c381c044303cb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 124/139] fix: PVTO without undersaturated data in its last
 record is refused

---
 opm/core/props/pvt/SinglePvtLiveOil.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/props/pvt/SinglePvtLiveOil.cpp b/opm/core/props/pvt/SinglePvtLiveOil.cpp
index d427d79..3c2a1e0 100644
--- a/opm/core/props/pvt/SinglePvtLiveOil.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveOil.cpp
@@ -46,6 +46,10 @@ namespace Opm
         }
         saturated_oil_table_.resize(4);
         const int sz =  pvto[region_number].size();
+        // A record is Rs followed by rows of p, Bo and mu_o.
+        if (sz < 2 || pvto[region_number].back().size() < 1 + 2*3) {
+            THROW("PVTO needs at least two records, and undersaturated data in the last one");
+        }
         for (int k=0; k<4; ++k) {
             saturated_oil_table_[k].resize(sz);
         }
-- 
2.43.0


From 8d8023c6d91d0f3a89fbfe484fb0c067a4489d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 125/139] fix: PVTG with a single pressure is refused

---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index 7fc22b5..715915a 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -55,6 +55,9 @@ namespace Opm
         }
         saturated_gas_table_.resize(4);
         const int sz = pvtg[region_number].size();
+        if (sz < 2) {
+            THROW("PVTG needs records at two pressures or more");
+        }
         for (int k=0; k<4; ++k) {
             saturated_gas_table_[k].resize(sz);
         }
-- 
2.43.0


From f553299e2ba05399b725f25801dfa6c3491e1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 126/139] fix: rates of perforations flowing back into an
 injector follow the solved equations

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 67c2f6f..2f24854 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1105,6 +1105,8 @@ compute_wflux(int                        np    ,
     cdata = wells->data;
     wdp   = cdata->wdp;
 
+    (void) pmobc;
+
     for (w = i = 0; w < W->number_of_wells; w++) {
         pw = wpress[w];
 
@@ -1112,8 +1114,9 @@ compute_wflux(int                        np    ,
             c  = W->well_cells[ i ];
             dp = pw + wdp[ i ] - cpress[c];
 
-            if (dp > 0) { pmob = cdata->phasemob + (i * np); } /* w->c */
-            else        { pmob = pmobc           + (c * np); } /* c->w */
+            /* Same mobilities as in the assembled equations, whatever
+             * the direction of the flow. */
+            pmob = cdata->phasemob + (i * np);
 
             for (p = 0, t = 0.0; p < np; p++) {
                 t += pmob[ p ];
-- 
2.43.0


From 92e19721cac10c01eb3c5d62a843ee036328ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 127/139] fix: tables of a single point are refused instead of
 read past their end

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index 79ca71e..b692054 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -127,6 +127,9 @@ namespace Opm
                             const std::vector<T>& y_values)
         : x_values_(x_values), y_values_(y_values)
     {
+        if (x_values.size() < 2 || y_values.size() != x_values.size()) {
+            THROW("A table needs at least two points, and as many values as points");
+        }
         ASSERT(isNondecreasing(x_values.begin(), x_values.end()));
     }
 
-- 
2.43.0


From 5b025c6f1071b431830c33fba018c5992a17efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 128/139] fix: ROCKTAB with a single row is refused

---
 opm/core/props/rock/RockCompressibility.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/props/rock/RockCompressibility.cpp b/opm/core/props/rock/RockCompressibility.cpp
index b290f9b..3f9a8d4 100644
--- a/opm/core/props/rock/RockCompressibility.cpp
+++ b/opm/core/props/rock/RockCompressibility.cpp
@@ -43,6 +43,9 @@ namespace Opm
         if (deck.hasField("ROCKTAB")) {
             const table_t& rt = deck.getROCKTAB().rocktab_;
             int n = rt[0][0].size();
+            if (n < 2) {
+                THROW("ROCKTAB needs at least two rows");
+            }
             p_.resize(n);
             poromult_.resize(n);
             for (int i = 0; i < n; ++i) {
-- 
2.43.0


From 8c91b996e0d7be45bde8aa3734c74663e1eb8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 129/139] fix: active cells with SATNUM below 1 are refused

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 05ead6f..1e442f3 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -65,6 +65,9 @@ namespace Opm
             for (int cell = 0; cell < num_cells; ++cell) {
                 const int deck_pos = (gc == NULL) ? cell : gc[cell];
                 cell_to_func_[cell] = satnum[deck_pos] - 1;
+                if (cell_to_func_[cell] < 0) {
+                    THROW("SATNUM is " << satnum[deck_pos] << " in an active cell, regions start at 1");
+                }
             }
         }
 
-- 
2.43.0


From ba663b00c7934c2799507185b356d95f65efdfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 130/139] fix: depths which neither increase nor decrease along
 the pillars are refused

The depths were multiplied by -3 and processed into a grid of negative or missing volumes.
---
 opm/core/grid/cornerpoint_grid.c         |  7 ++++++-
 opm/core/grid/cornerpoint_grid.h         |  3 ++-
 opm/core/grid/cpgpreprocess/preprocess.c | 14 +++++++++++---
 opm/core/grid/cpgpreprocess/preprocess.h | 11 ++++++++---
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/opm/core/grid/cornerpoint_grid.c b/opm/core/grid/cornerpoint_grid.c
index 8ae8d88..0ce8039 100644
--- a/opm/core/grid/cornerpoint_grid.c
+++ b/opm/core/grid/cornerpoint_grid.c
@@ -173,7 +173,12 @@ create_grid_cornerpoint(const struct grdecl *in, double tol)
        return NULL;
    }
 
-   process_grdecl(in, tol, &pg);
+   if (! process_grdecl(in, tol, &pg))
+   {
+       free_processed_grid(&pg);
+       destroy_grid(g);
+       return NULL;
+   }
 
    /*
     *  Convert "struct processed_grid" to "struct UnstructuredGrid".
diff --git a/opm/core/grid/cornerpoint_grid.h b/opm/core/grid/cornerpoint_grid.h
index 9e9c94f..e8b87e9 100644
--- a/opm/core/grid/cornerpoint_grid.h
+++ b/opm/core/grid/cornerpoint_grid.h
@@ -65,7 +65,8 @@ extern "C" {
      *
      * @return Fully formed grid data structure that manages the grid defined by
      * the input corner-point specification. Must be destroyed using function
-     * destroy_grid().
+     * destroy_grid().  Null if the depths (ZCORN) neither increase nor decrease
+     * along the pillars.
      */
     struct UnstructuredGrid *
     create_grid_cornerpoint(const struct grdecl *in, double tol);
diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 0a3c19f..bfae37e 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -758,9 +758,9 @@ reverse_face_nodes(struct processed_grid *out)
 /*-----------------------------------------------------------------
   Public interface
 */
-void process_grdecl(const struct grdecl   *in,
-                    double                tolerance,
-                    struct processed_grid *out)
+int process_grdecl(const struct grdecl   *in,
+                   double                tolerance,
+                   struct processed_grid *out)
 {
     struct grdecl g;
 
@@ -835,6 +835,12 @@ void process_grdecl(const struct grdecl   *in,
 
     zcorn     = malloc (nc * 8 * sizeof *zcorn);
     sign      = get_zcorn_sign(nx, ny, nz, in->actnum, in->zcorn, &error);
+    if (error) {
+        /* Neither depth nor elevation.  There is no grid to process. */
+        free (zcorn);
+        free (actnum);
+        return 0;
+    }
     g.zcorn   = copy_and_permute_zcorn(nx, ny, nz, in->zcorn, sign, zcorn);
 
     /* Pillar end-points must have the same vertical sign convention as the
@@ -946,6 +952,8 @@ void process_grdecl(const struct grdecl   *in,
     if (left_handed) {
         reverse_face_nodes(out);
     }
+
+    return 1;
 }
 
 /*-------------------------------------------------------*/
diff --git a/opm/core/grid/cpgpreprocess/preprocess.h b/opm/core/grid/cpgpreprocess/preprocess.h
index 499cf35..ecabb5d 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.h
+++ b/opm/core/grid/cpgpreprocess/preprocess.h
@@ -125,10 +125,15 @@ extern "C" {
      *                    neighbourship definition, vertex geometry, face's
      *                    constituent vertices, and local-to-global cell
      *                    mapping.
+     *
+     * @return One (true) if successful, and zero (false) if the depths in "g"
+     *         are not ordered along the pillars.  No grid is formed in the
+     *         latter case, but "out" must still be passed to function
+     *         free_processed_grid().
      */
-    void process_grdecl(const struct grdecl   *g  ,
-                        double                 tol,
-                        struct processed_grid *out);
+    int process_grdecl(const struct grdecl   *g  ,
+                       double                 tol,
+                       struct processed_grid *out);
 
     /**
      * Release memory resources acquired in previous grid processing using
-- 
2.43.0


From 2f9b524da1d5b92160533e369142f27fc2b0bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 131/139] fix: cell data ending before the last active cell are
 refused

PORO, PERMX..., SATNUM, scaled end points, PRESSURE, SWAT and SGAS were read beyond their end, as were
ENPTVD and ENKRVD with fewer tables than saturation regions.
---
 opm/core/props/rock/RockFromDeck.cpp          |  4 ++--
 .../satfunc/SaturationPropsFromDeck_impl.hpp  |  6 +++---
 opm/core/simulator/initState_impl.hpp         | 20 +++++++++----------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/opm/core/props/rock/RockFromDeck.cpp b/opm/core/props/rock/RockFromDeck.cpp
index a2349bc..dad2d8e 100644
--- a/opm/core/props/rock/RockFromDeck.cpp
+++ b/opm/core/props/rock/RockFromDeck.cpp
@@ -74,7 +74,7 @@ namespace Opm
             const std::vector<double>& poro = parser.getFloatingPointValue("PORO");
             for (int c = 0; c < int(porosity_.size()); ++c) {
                 const int deck_pos = (gc == NULL) ? c : gc[c];
-                porosity_[c] = poro[deck_pos];
+                porosity_[c] = poro.at(deck_pos);
             }
         }
     }
@@ -124,7 +124,7 @@ namespace Opm
                 for (int i = 0; i < dim; ++i) {
                     for (int j = 0; j < dim; ++j, ++kix) {
                         // K(i,j) = (*tensor[kmap[kix]])[glob];
-                        permeability_[off + kix] = (*tensor[kmap[kix]])[glob];
+                        permeability_[off + kix] = tensor[kmap[kix]]->at(glob);
                     }
                     // K(i,i) = std::max(K(i,i), perm_threshold);
                     permeability_[off + 3*i + i] = std::max(permeability_[off + 3*i + i], perm_threshold);
diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 1e442f3..4fdab42 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -64,7 +64,7 @@ namespace Opm
             const int* gc = grid.global_cell;
             for (int cell = 0; cell < num_cells; ++cell) {
                 const int deck_pos = (gc == NULL) ? cell : gc[cell];
-                cell_to_func_[cell] = satnum[deck_pos] - 1;
+                cell_to_func_[cell] = satnum.at(deck_pos) - 1;
                 if (cell_to_func_[cell] < 0) {
                     THROW("SATNUM is " << satnum[deck_pos] << " in an active cell, regions start at 1");
                 }
@@ -363,7 +363,7 @@ namespace Opm
             const std::vector<double>& val = deck.getFloatingPointValue(keyword);
             for (int c = 0; c < int(scaleparam.size()); ++c) {
                 const int deck_pos = (gc == NULL) ? c : gc[c];
-                scaleparam[c] = val[deck_pos];
+                scaleparam[c] = val.at(deck_pos);
             }
         } else {
             std::cout << "--- Scaling parameter '" << keyword << "' assigned via ";
@@ -375,7 +375,7 @@ namespace Opm
             const int dim = grid.dimensions;
             for (int cell = 0; cell < grid.number_of_cells; ++cell) {
                 int jtab = cell_to_func_.empty() ? 0 : cell_to_func_[cell];
-                if (table[itab][jtab][0] != -1.0) {
+                if (table[itab].at(jtab)[0] != -1.0) {
                     std::vector<double>& depth = table[0][jtab];
                     std::vector<double>& val = table[itab][jtab];
                     double zc = cc[dim*cell+dim-1];
diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 495ef79..9c7fba4 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -502,9 +502,9 @@ namespace Opm
                     const int opos = pu.phase_pos[BlackoilPhases::Liquid];
                     for (int c = 0; c < num_cells; ++c) {
                         int c_deck = (grid.global_cell == NULL) ? c : grid.global_cell[c];
-                        s[2*c + gpos] = sg_deck[c_deck];
-                        s[2*c + opos] = 1.0 - sg_deck[c_deck];
-                        p[c] = p_deck[c_deck];
+                        s[2*c + gpos] = sg_deck.at(c_deck);
+                        s[2*c + opos] = 1.0 - sg_deck.at(c_deck);
+                        p[c] = p_deck.at(c_deck);
                     }
                 } else {
                     // water-oil or water-gas: we require SWAT
@@ -516,9 +516,9 @@ namespace Opm
                     const int nwpos = (wpos + 1) % 2;
                     for (int c = 0; c < num_cells; ++c) {
                         int c_deck = (grid.global_cell == NULL) ? c : grid.global_cell[c];
-                        s[2*c + wpos] = sw_deck[c_deck];
-                        s[2*c + nwpos] = 1.0 - sw_deck[c_deck];
-                        p[c] = p_deck[c_deck];
+                        s[2*c + wpos] = sw_deck.at(c_deck);
+                        s[2*c + nwpos] = 1.0 - sw_deck.at(c_deck);
+                        p[c] = p_deck.at(c_deck);
                     }
                 }
             } else if (num_phases == 3) {
@@ -533,10 +533,10 @@ namespace Opm
                 const std::vector<double>& sg_deck = deck.getFloatingPointValue("SGAS");
                 for (int c = 0; c < num_cells; ++c) {
                     int c_deck = (grid.global_cell == NULL) ? c : grid.global_cell[c];
-                    s[3*c + wpos] = sw_deck[c_deck];
-                    s[3*c + opos] = 1.0 - (sw_deck[c_deck] + sg_deck[c_deck]);
-                    s[3*c + gpos] = sg_deck[c_deck];
-                    p[c] = p_deck[c_deck];
+                    s[3*c + wpos] = sw_deck.at(c_deck);
+                    s[3*c + opos] = 1.0 - (sw_deck.at(c_deck) + sg_deck.at(c_deck));
+                    s[3*c + gpos] = sg_deck.at(c_deck);
+                    p[c] = p_deck.at(c_deck);
                  }
             } else {
                 THROW("initStateFromDeck(): init with SWAT etc. only available with 2 or 3 phases.");
-- 
2.43.0


From 16d333dad30fcaa4f22174538fae829f4aa8751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:21 +0000
Subject: [PATCH 132/139] fix: grid arrays of the wrong length are refused

COORD, ZCORN, ACTNUM, MAPAXES, DIMENS and TOPS were handed to the grid processing without their lengths
and read beyond their end, and the chopping tool read ZCORN before its length was checked.
---
 opm/core/grid/GridManager.cpp                |  6 ++++++
 opm/core/io/eclipse/CornerpointChopper.hpp   |  6 +++++-
 opm/core/io/eclipse/EclipseGridInspector.cpp |  9 +++++++++
 opm/core/io/eclipse/EclipseGridParser.cpp    | 21 +++++++++++++++++++-
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/opm/core/grid/GridManager.cpp b/opm/core/grid/GridManager.cpp
index df93bdc..838a46d 100644
--- a/opm/core/grid/GridManager.cpp
+++ b/opm/core/grid/GridManager.cpp
@@ -176,6 +176,9 @@ namespace Opm
         } else {
             THROW("Deck must have either DIMENS or SPECGRID.");
         }
+        if (dims.size() < 3) {
+            THROW("DIMENS must give the number of cells in three directions.");
+        }
 
         // Extract coordinates (or offsets from top, in case of z).
         const std::vector<double>& dxv = deck.getFloatingPointValue("DXV");
@@ -210,6 +213,9 @@ namespace Opm
             // It is not 100% clear how we best can deal with
             // varying TOPS (stair-stepping grid, or not).
             const std::vector<double>& tops = deck.getFloatingPointValue("TOPS");
+            if (tops.empty()) {
+                THROW("No depths given in TOPS.");
+            }
             if (std::count(tops.begin(), tops.end(), tops[0]) != int(tops.size())) {
                 THROW("We do not support nonuniform TOPS, please use ZCORN/COORDS instead.");
             }
diff --git a/opm/core/io/eclipse/CornerpointChopper.hpp b/opm/core/io/eclipse/CornerpointChopper.hpp
index 8fab5f2..7986da3 100644
--- a/opm/core/io/eclipse/CornerpointChopper.hpp
+++ b/opm/core/io/eclipse/CornerpointChopper.hpp
@@ -44,6 +44,10 @@ namespace Opm
 
             int layersz = 8*dims_[0]*dims_[1];
             const std::vector<double>& ZCORN = parser_.getFloatingPointValue("ZCORN");
+            if (int(ZCORN.size()) != layersz*dims_[2]) {
+                std::cerr << "Error! ZCORN size (" << ZCORN.size() << ") not consistent with SPECGRID\n";
+                throw std::runtime_error("Inconsistent ZCORN and SPECGRID.");
+            }
             botmax_ = *std::max_element(ZCORN.begin(), ZCORN.begin() + layersz/2);
             topmin_ = *std::min_element(ZCORN.begin() + dims_[2]*layersz - layersz/2,
                                         ZCORN.begin() + dims_[2]*layersz);
@@ -392,7 +396,7 @@ namespace Opm
             int sz = new_to_old_cell_.size();
             output_field.resize(sz);
             for (int i = 0; i < sz; ++i) {
-                output_field[i] = field[new_to_old_cell_[i]];
+                output_field[i] = field.at(new_to_old_cell_[i]);
             }
         }
 
diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index d7aa7a7..9850204 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -67,6 +67,9 @@ EclipseGridInspector::EclipseGridInspector(const EclipseGridParser& parser)
         logical_gridsize_[2] = sgr.dimensions[2];
     } else if (parser_.hasField("DIMENS")) {
         const std::vector<int>& dim = parser.getIntegerValue("DIMENS");
+        if (dim.size() < 3) {
+            THROW("DIMENS must give the number of cells in three directions.");
+        }
         logical_gridsize_[0] = dim[0];
         logical_gridsize_[1] = dim[1];
         logical_gridsize_[2] = dim[2];
@@ -273,6 +276,12 @@ std::tr1::array<double, 6> EclipseGridInspector::getGridLimits() const
 
 
     int pillars = (logical_gridsize_[0]+1) * (logical_gridsize_[1]+1);
+    if (6*pillars != int(coord.size())) {
+        throw std::runtime_error("Wrong size of COORD field.");
+    }
+    if (8*logical_gridsize_[0]*logical_gridsize_[1]*logical_gridsize_[2] != int(zcorn.size())) {
+        throw std::runtime_error("Wrong size of ZCORN field");
+    }
 
     for (int pillarindex = 0; pillarindex < pillars; ++pillarindex) {
         if        (coord[pillarindex * 6 + 0] > xmax)
diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index cd5ea27..52eae1f 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -844,7 +844,7 @@ struct grdecl EclipseGridParser::get_grdecl() const {
   const std::vector<double>& zcorn = getFloatingPointValue("ZCORN");
   const std::vector<double>& coord = getFloatingPointValue("COORD");
   const int* actnum = NULL;
-  if (hasField("ACTNUM")) {
+  if (hasField("ACTNUM") && !getIntegerValue("ACTNUM").empty()) {
     actnum = &(getIntegerValue("ACTNUM")[0]);
   }
 
@@ -856,6 +856,22 @@ struct grdecl EclipseGridParser::get_grdecl() const {
   } else {
     THROW("Deck must have either DIMENS or SPECGRID.");
   }
+  if (dims.size() < 3) {
+    THROW("DIMENS must give the number of cells in three directions.");
+  }
+
+  // The arrays are handed over without their lengths.
+  const std::size_t num_pillars = (std::size_t(dims[0]) + 1) * (std::size_t(dims[1]) + 1);
+  const std::size_t num_cells = std::size_t(dims[0]) * dims[1] * dims[2];
+  if (coord.size() != 6*num_pillars) {
+    THROW("Wrong number of COORD values: " << coord.size() << ", expected " << 6*num_pillars);
+  }
+  if (zcorn.size() != 8*num_cells) {
+    THROW("Wrong number of ZCORN values: " << zcorn.size() << ", expected " << 8*num_cells);
+  }
+  if (hasField("ACTNUM") && getIntegerValue("ACTNUM").size() != num_cells) {
+    THROW("Wrong number of ACTNUM values: " << getIntegerValue("ACTNUM").size() << ", expected " << num_cells);
+  }
   
   // Collect in input struct for preprocessing.
   
@@ -868,6 +884,9 @@ struct grdecl EclipseGridParser::get_grdecl() const {
 
   if (hasField("MAPAXES")) {
     const std::vector<double> &mapaxes = getFloatingPointValue("MAPAXES");
+    if (mapaxes.size() < 6) {
+      THROW("MAPAXES must have six values.");
+    }
     grdecl.mapaxes = &mapaxes[0];
   } else
     grdecl.mapaxes = NULL;
-- 
2.43.0


From 36286c387a3378c4435da539ead43c4067261528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 133/139] fix: SATNUM without values is refused

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 4fdab42..9a13605 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -58,6 +58,9 @@ namespace Opm
         int satfuncs_expected = 1;
         if (deck.hasField("SATNUM")) {
             const std::vector<int>& satnum = deck.getIntegerValue("SATNUM");
+            if (satnum.empty()) {
+                THROW("SATNUM is given without any values.");
+            }
             satfuncs_expected = *std::max_element(satnum.begin(), satnum.end());
             const int num_cells = grid.number_of_cells;
             cell_to_func_.resize(num_cells);
-- 
2.43.0


From a00fcbaa353467bdbd6ebaed5351dec70adf4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 134/139] fix: repeat counts beyond the items of a record wrote
 outside it

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index c017e21..421ab82 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -179,7 +179,9 @@ namespace
                     } else {
                         is >> candidate;         // Use candidate 'multipler' times
                         for (int i=0; i<multiplier; ++i, ++num_values) {
-                            data[num_values] = candidate;
+                            if (num_values < max_values) {
+                                data[num_values] = candidate;
+                            }
                         }
                     }
                 } else {
-- 
2.43.0


From d31d48945e01dc3c58ec1c7120148e318e3497e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 135/139] fix: default counts going on beyond the items kept
 lost the records that follow

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 11 +++
 opm/core/io/eclipse/SpecialEclipseFields.hpp  | 70 +++++++++++++------
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 421ab82..e6523ae 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -39,6 +39,7 @@
 #include <limits>
 #include <string>
 #include <istream>
+#include <sstream>
 #include <vector>
 #include <opm/core/utility/ErrorMacros.hpp>
 #include <opm/core/utility/linearInterpolation.hpp>
@@ -104,6 +105,14 @@ namespace
         return string_candidate.substr(beg, len);
     }
 
+    // Number of items which an item 'n*' sets to their defaults.
+    inline int defaultCount(const std::string& item)
+    {
+        int count = 1;
+        std::istringstream(item) >> count;
+        return count;
+    }
+
     // Reads data until '/' or an error is encountered.
     template<typename T>
     inline void readVectorData(std::istream& is, std::vector<T>& data)
@@ -149,6 +158,8 @@ namespace
     // Asterisks may be used to signify 'repeat counts'. 5*3.14 will
     // insert 3.14 five times. Asterisk followed by a space is used to
     // signify default values.  n* will default n consecutive quantities.
+    // Returns the number of items read, which is larger than 'max_values' if
+    // the last count goes on beyond the items asked for.
     template<class Vec>
     inline int readDefaultedVectorData(std::istream& is, Vec& data, int max_values)
     {
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index a15bf06..45a73ce 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -233,7 +233,7 @@ struct MULTFLT : public SpecialBase
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
-            if (readDefaultedVectorData(is, data, 2) == 2) {
+            if (readDefaultedVectorData(is, data, 2) >= 2) {
                 ignoreSlashLine(is);
             }
             multflt_line.transmis_multiplier = data[0];
@@ -369,7 +369,7 @@ struct DENSITY : public SpecialBase
     {
         while (!is.eof()) {
             std::vector<double> density(3,-1e100);
-            if (readDefaultedVectorData(is, density, 3) == 3) {
+            if (readDefaultedVectorData(is, density, 3) >= 3) {
                 ignoreSlashLine(is);
             }
             densities_.push_back(density);
@@ -960,7 +960,7 @@ struct COMPDAT : public SpecialBase
             compdat_line.diameter_ = double_data[2];
 
             // HACK! Ignore items 10-14.
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             compdat.push_back(compdat_line);
@@ -1063,7 +1063,7 @@ struct GCONINJE : public SpecialBase
             gconinje_line.reinjection_fraction_target_ = double_data[2];
             gconinje_line.voidage_replacement_fraction_ = double_data[3];
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             gconinje.push_back(gconinje_line);
@@ -1173,7 +1173,7 @@ struct WCONINJE : public SpecialBase
             wconinje_line.VFP_table_number_ = (int)double_data[4];
             wconinje_line.concentration_ = double_data[5];
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             wconinje.push_back(wconinje_line);
@@ -1267,36 +1267,51 @@ struct GCONPROD : public SpecialBase
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
+            int num_read = 0;
             if (gconprod_line.control_mode_[gconprod_line.control_mode_.size() - 1] == '*') 
             {
+                // The count may go on into the rates.
+                num_read = defaultCount(gconprod_line.control_mode_) - 1;
                 gconprod_line.control_mode_ = "NONE";
             }
             std::vector<double> double_data(4, -1.0E20);
             const int num_to_read = 4;
-            int num_read = readDefaultedVectorData(is, double_data, num_to_read);
+            if (num_read < num_to_read) {
+                std::vector<double> given_data(num_to_read - num_read, -1.0E20);
+                int num_given = readDefaultedVectorData(is, given_data, given_data.size());
+                copy(given_data.begin(), given_data.end(), double_data.begin() + num_read);
+                num_read += num_given;
+            }
             gconprod_line.oil_max_rate_ = double_data[0];
             gconprod_line.water_max_rate_ = double_data[1];
             gconprod_line.gas_max_rate_ = double_data[2];
             gconprod_line.liquid_max_rate_ = double_data[3];
 
             std::string procedure;
-            if (num_read == num_to_read) {
-                procedure = readString(is);
-                if (procedure[0] == '/') {
-                    is.putback('/');
+            if (num_read >= num_to_read) {
+                // Default items left of a count that went on beyond the rates.
+                int num_left = num_read - num_to_read;
+                if (num_left > 0) {
                     procedure = "NONE";
+                    --num_left;
+                } else {
+                    procedure = readString(is);
+                    if (procedure[0] == '/') {
+                        is.putback('/');
+                        procedure = "NONE";
+                    } else if (procedure[procedure.size()-1] == '*') {
+                        num_left = defaultCount(procedure) - 1;
+                        procedure = "NONE";
+                    }
                 }
-                int read_ignored = 0;
+                int read_ignored = num_left;
                 int to_read = 6;
                 for (; read_ignored < to_read; ++read_ignored) {
                     std::string ignored_value = readString(is);
                     if (ignored_value[ignored_value.size()-1]=='*') {
                         // we've got defaulted argument, increment
                         
-                        int num_defaulted;
-                        std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
-                        std::istringstream(num_defaulted_str) >> num_defaulted;
-                        read_ignored += num_defaulted - 1; // The loop counts one.
+                        read_ignored += defaultCount(ignored_value) - 1; // The loop counts one.
                     } else if(ignored_value[0] == '/') {
                         is.putback('/');
                         break;
@@ -1321,7 +1336,7 @@ struct GCONPROD : public SpecialBase
             
             gconprod.push_back(gconprod_line);
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             
@@ -1404,22 +1419,31 @@ struct WGRUPCON : public SpecialBase
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
+            int num_read = 0;
             if (available[available.size()-1] == '*') 
             {
+                // The count may go on into the guide rate and the phase.
+                num_read = defaultCount(available) - 1;
                 available = "YES";
             }
             wgrupcon_line.available_for_group_control_ = (available == "YES");
             std::vector<double> double_data(1, 1.0E20);
             const int num_to_read = 1;
-            int num_read = readDefaultedVectorData(is, double_data, num_to_read);
+            if (num_read < num_to_read) {
+                num_read = readDefaultedVectorData(is, double_data, num_to_read);
+            }
             wgrupcon_line.guide_rate_ = double_data[0];
             
-            if (num_read == num_to_read) {
+            if (num_read > num_to_read) {
+                ignoreSlashLine(is);
+            } else if (num_read == num_to_read) {
                 std::string phase = readString(is); 
                 if (phase[0] == '/') {
                     is >> ignoreLine;
                 } else {
-                    wgrupcon_line.phase_ = phase;
+                    if (phase[phase.size()-1] != '*') {
+                        wgrupcon_line.phase_ = phase;
+                    }
                     // HACK! Ignore any further items
                     ignoreSlashLine(is);
                 }
@@ -1527,7 +1551,7 @@ struct WCONPROD : public SpecialBase
             wconprod_line.artif_lift_quantity_ = double_data[8];
             wconprod.push_back(wconprod_line);
 
-            if(num_to_read == num_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
 
@@ -1772,7 +1796,7 @@ struct EQUIL : public SpecialBase
         int num_to_read = 9;
         std::vector<double> data(num_to_read,0);
         int num_read = readDefaultedVectorData(is, data, num_to_read);
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
 
@@ -2004,7 +2028,7 @@ struct PLYROCK : public SpecialBase
         plyrock_[3] = 1;  // Default value
         int num_to_read = 5;
         int num_read = readDefaultedVectorData(is, plyrock_, num_to_read);
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
     }
@@ -2107,7 +2131,7 @@ struct TLMIXPAR : public SpecialBase
         if (tlmixpar_[1] < 0) { 
             tlmixpar_[1] = tlmixpar_[0];
         }
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
     }
-- 
2.43.0


From 9eb6b56e1afa72266a131f3a68e164dfb9f1d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:05 +0000
Subject: [PATCH 136/139] fix: pressure solvers went on with the result of
 linear systems which could not be solved

---
 opm/core/pressure/CompressibleTpfa.cpp |  6 +++++-
 opm/core/pressure/IncompTpfa.cpp       | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 4363990..720909d 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -550,7 +550,11 @@ namespace Opm
     void CompressibleTpfa::solveIncrement()
     {
         // Increment is equal to -J^{-1}F
-        linsolver_.solve(h_->J, h_->F, &pressure_increment_[0]);
+        const LinearSolverInterface::LinearSolverReport rep
+            = linsolver_.solve(h_->J, h_->F, &pressure_increment_[0]);
+        if (!rep.converged) {
+            THROW("CompressibleTpfa::solve() failed to solve the linear system for the pressure increment.");
+        }
         std::transform(pressure_increment_.begin(), pressure_increment_.end(),
                        pressure_increment_.begin(), std::negate<double>());
     }
diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index 4ee889a..6b77a2b 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -182,7 +182,11 @@ namespace Opm
         }
 
         // Solve.
-        linsolver_.solve(h_->A, h_->b, h_->x);
+        const LinearSolverInterface::LinearSolverReport rep
+            = linsolver_.solve(h_->A, h_->b, h_->x);
+        if (!rep.converged) {
+            THROW("IncompTpfa::solve() failed to solve the linear system for the pressure.");
+        }
 
         // Obtain solution.
         ASSERT(int(state.pressure().size()) == grid_.number_of_cells);
@@ -419,7 +423,11 @@ namespace Opm
     {
         // Increment is equal to -J^{-1}R.
         // The Jacobian is in h_->A, residual in h_->b.
-        linsolver_.solve(h_->A, h_->b, h_->x);
+        const LinearSolverInterface::LinearSolverReport rep
+            = linsolver_.solve(h_->A, h_->b, h_->x);
+        if (!rep.converged) {
+            THROW("IncompTpfa::solve() failed to solve the linear system for the pressure increment.");
+        }
         // It is not necessary to negate the increment,
         // apparently the system for the increment is generated,
         // not the Jacobian and residual as such.
-- 
2.43.0


From 595d0e266427292f13e39cbaf0505c5f6d52ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 137/139] fix: XML parameter files without any element crashed
 the reader

---
 opm/core/utility/parameters/ParameterXML.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterXML.cpp b/opm/core/utility/parameters/ParameterXML.cpp
index 60c7294..802b8a3 100644
--- a/opm/core/utility/parameters/ParameterXML.cpp
+++ b/opm/core/utility/parameters/ParameterXML.cpp
@@ -84,6 +84,10 @@ namespace Opm {
 		    throw std::exception();
                 }
                 const TiXmlNode* root = doc.RootElement();
+                if (!root) {
+		    std::cerr << "ERROR: No elements found in XML file '" << filename << "'\n";
+		    throw std::exception();
+                }
 		std::string xml_file_path = boost::filesystem::path(filename).branch_path().string();
 		fill_tree(pg, root, xml_file_path);
 	    }
-- 
2.43.0


From 1dfbd123f73ce34955db347a163c0ed419239fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 138/139] fix: XML declaration that breaks off aborted the
 reader

---
 opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
index 75df34e..4d994d6 100644
--- a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
+++ b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
@@ -1601,6 +1601,10 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+		{
+			break;		// the declaration is not finished
+		}
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From a849781683bbfd3327130d531617fb104dcd2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 139/139] fix: set the parent of nodes added to a well
 collection by hand

addChild(node, parent_name) put the node below its parent but left its
parent pointer null, unlike the variant building nodes from a deck.
---
 opm/core/wells/WellCollection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellCollection.cpp b/opm/core/wells/WellCollection.cpp
index 19cf301..efc6e2f 100644
--- a/opm/core/wells/WellCollection.cpp
+++ b/opm/core/wells/WellCollection.cpp
@@ -111,6 +111,7 @@ namespace Opm
             leaf_nodes_.push_back(static_cast<WellNode*>(child_node.get()));
         }
 
+        child_node->setParent(parent);
     }
 
     /// Adds the node to the collection (as a root node)
-- 
2.43.0

