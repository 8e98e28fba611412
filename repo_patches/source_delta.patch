From 1a792b7ef9cf78ab8fc10d55536af40dde048ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 01/66] fix: accept a configuration without a SIMULATION
 section when ephemerides are external

The ephemerides type was only handed to the SIMULATION validator when the section was
present, so leaving the section out (as the documentation asks for external ephemerides)
ended in 'No value found for required key _ephemerides_type'.
---
 src/sorcha/utilities/sorchaConfigs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..3b93885 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1273,11 +1273,12 @@ class sorchaConfigs(basesorchaConfigs):
             ):
                 extra_args["survey_name"] = self.survey_name
 
-            if config_object.has_section(section):
-                if section == "SIMULATION":
-                    extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            # passed whether or not the section is there: external ephemerides need no SIMULATION section
+            if section == "SIMULATION":
+                extra_args["_ephemerides_type"] = self.input.ephemerides_type
 
-                elif section == "SATURATION":
+            if config_object.has_section(section):
+                if section == "SATURATION":
                     extra_args["_observing_filters"] = self.filters.observing_filters
 
                 if section == "EXPERT":
-- 
2.43.0


From 0b4c7dad98c9617ddeec2cc46c6d3407bdec3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 02/66] fix: apply colour offsets to absolute magnitudes read
 in as integers

A physical parameters chunk whose H values carry no decimals is read as int64 and
assigning the colour-corrected floats into it raised a TypeError.
---
 src/sorcha/modules/PPApplyColourOffsets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index 2d87a94..d6ae8fc 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -55,6 +55,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
     # save original H column: useful for other functions.
     observations["H_original"] = observations[H_col].copy()
 
+    # H may have been read in as integers: the colour offsets added below are floats.
+    observations[H_col] = observations[H_col].astype(float)
+
     # create a zero-offset column for mainfilter-mainfilter
     observations[mainfilter + "-" + mainfilter] = np.zeros(len(observations))
 
-- 
2.43.0


From 566c249ce36bc0c2298397a8ce1f73e3a2f8d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/66] fix: use filter-specific phase curve parameters when
 observing in a single filter

With one observing filter the colour/phase selection was skipped altogether, so a
physical parameters file giving e.g. GSr rather than GS ended in a KeyError.
---
 src/sorcha/modules/PPCalculateApparentMagnitude.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sorcha/modules/PPCalculateApparentMagnitude.py b/src/sorcha/modules/PPCalculateApparentMagnitude.py
index 2353200..2da31f4 100644
--- a/src/sorcha/modules/PPCalculateApparentMagnitude.py
+++ b/src/sorcha/modules/PPCalculateApparentMagnitude.py
@@ -82,6 +82,11 @@ def PPCalculateApparentMagnitude(
     else:
         observations["H_filter"] = observations["H_" + mainfilter].copy()
 
+        # phase curve variables may still be given for this filter by name
+        for variable in ["GS", "G1", "G2", "G12", "S"]:
+            if variable not in observations.columns and variable + mainfilter in observations.columns:
+                observations = observations.rename(columns={variable + mainfilter: variable})
+
     # calculate main body apparent magnitude in observation filter
     verboselog("Calculating apparent magnitude in filter...")
     observations = PPCalculateApparentMagnitudeInFilter(
-- 
2.43.0


From 0e34bb4bdcfaa817ac70fd03f8b7419b82d6d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 04/66] fix: return randomised positions in mas when they are
 given in mas

---
 src/sorcha/modules/PPRandomizeMeasurements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPRandomizeMeasurements.py b/src/sorcha/modules/PPRandomizeMeasurements.py
index f133758..62728a4 100644
--- a/src/sorcha/modules/PPRandomizeMeasurements.py
+++ b/src/sorcha/modules/PPRandomizeMeasurements.py
@@ -187,7 +187,9 @@ def randomizeAstrometry(
 
     if radecUnits == "deg":
         [ra, dec] = icrf2radec(xyz[:, 0], xyz[:, 1], xyz[:, 2], deg=True)
-
+    elif radecUnits == "mas":
+        [ra, dec] = icrf2radec(xyz[:, 0], xyz[:, 1], xyz[:, 2], deg=True)
+        ra, dec = ra * 3600000.0, dec * 3600000.0
     else:
         [ra, dec] = icrf2radec(xyz[:, 0], xyz[:, 1], xyz[:, 2], deg=False)
 
-- 
2.43.0


From 2a53991968f604de6078951ade266f8470ea8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 05/66] fix: a circle radius or fill factor of zero is a
 setting, not an absent one

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From e453efb07cd916d589a55b4158de17969b278c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 06/66] fix: detectors can be built from corners in degrees

---
 src/sorcha/modules/PPFootprintFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..fe8022e 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -217,7 +217,9 @@ class Detector:
         self.units = units
 
         if units == "degrees" or units == "deg":
-            self.deg2rad()
+            self.ra = np.radians(self.ra)
+            self.dec = np.radians(self.dec)
+            self.units = "radians"
 
         # generate focal plane coordinates
         # convert to xyz on unit sphere
-- 
2.43.0


From ffe5b35867b34bcc948d3f8c0a12e9983ab7c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 07/66] fix: the built-in DES detector corners are in degrees

---
 src/sorcha/modules/PPFootprintFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index fe8022e..7ec153a 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -563,6 +563,9 @@ class Footprint:
                 stream = importlib_resources.files(__name__).joinpath(default_camera_config_file)
                 logger.info(f"Using built-in CCD Detector file: {default_camera_config_file}")
                 allcornersdf = pd.read_csv(stream)
+                if surveyname.lower() == "des":
+                    # the built-in DES corners are in degrees, those of LSST in radians
+                    allcornersdf[["x", "y"]] = np.radians(allcornersdf[["x", "y"]])
             except IOError:
                 logger.error(f"Error loading default camera footprint, exiting ...")
                 sys.exit(1)
-- 
2.43.0


From 5151397e61ddc862e48b3f2d1b933604ca1c8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 08/66] fix: visit footprints crossing RA 0 lost sources at
 high declination

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..3f8d0b2 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -66,26 +66,19 @@ def PPVisitsFootprint(
                 continue  # if no ccds skip
 
             points_query = np.array(
-                list(zip(points_df[ra_name], points_df[dec_name]))
+                list(zip(points_df[ra_name], points_df[dec_name])), dtype=float
             )  # number list of ra and of objects
 
             # ephermides wraps points around 0-360. however the ccd ra and decs supplied dont wrap around this point for a given camera footprint to reduce the complexity of creating shapes.
-            # therefore to solve this priblem we use the radius from the ar simulations to decide if an object on-sky postion needs to be unwraped for a given camera footprint
+            # therefore every point is moved by whole turns to lie within 180 degrees of the centre of this camera footprint. (a fixed margin around the boundary would not do, because
+            # the width of a footprint in ra grows towards the poles)
+            footprint_ra = np.mean([row["ra_centre"] for row in rows])
+            points_query[:, 0] -= 360.0 * np.round((points_query[:, 0] - footprint_ra) / 360.0)
 
-            # if the camera footprint is near the boundary i.e the radius of ephermers gen is wrapped round 360-0
-            if ephermers_buffer < 180:
-
-                if any(points_df["fieldRA_deg"] + ephermers_buffer > 360):
-                    points_query[
-                        points_query[:, 0] < 180, 0
-                    ] += 360  # use a mask to unwrap points so they are in the same relative coordinates as the footprint
-                if any(points_df["fieldRA_deg"] - ephermers_buffer < 0):
-                    points_query[points_query[:, 0] > 180, 0] -= 360
-            else:
+            if ephermers_buffer >= 180:
                 logger.warning(
                     "Ephemides buffer is too big to account for wrap around. Your footprint will be inaccurate"
                 )
-                # this might casue issues with objects of massive ephermides (greater than 180). Maybe warn the user of the super extreme case?
 
             # Kd tree using corners and centres of ccds
 
-- 
2.43.0


From 3f4153a66ac6e315cc66e270c7cb67a47c5a47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 09/66] fix: nearest CCDs of a visit are those nearest on the
 sky

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index 3f8d0b2..2cb0de3 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -97,12 +97,13 @@ def PPVisitsFootprint(
                     (row["urcra"], row["urcdec"]),
                     (row["ulcra"], row["ulcdec"]),
                 ]
-            # Build KDTree with all points
-            ccd_tree = cKDTree(all_ccd_points)
+            # Build KDTree with all points. The ra is scaled so that the distances are those on the sky
+            scale = np.array([np.cos(np.radians(np.mean(all_ccd_points[:, 1]))), 1.0])
+            ccd_tree = cKDTree(all_ccd_points * scale)
 
             if len(rows) > 1:
                 k = min(ccd_num, len(all_ccd_points))
-                _, closest_point_indices = ccd_tree.query(points_query, k=k)
+                _, closest_point_indices = ccd_tree.query(points_query * scale, k=k)
 
                 # Map back to unique ccd indices
                 unique_ccd_indices = set(point_to_ccd_map[i] for i in closest_point_indices.flatten())
-- 
2.43.0


From 7f90148487dceb584723064b378d78f50436ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 10/66] fix: visits footprint can be used with external
 ephemerides

---
 src/sorcha/modules/PPApplyFOVFilter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index e15de35..4c716dd 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -61,7 +61,6 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
             observations,
             sconfigs.fov.visits_query,
             visits,
-            ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer,
         )
 
         observations = observations.iloc[onSensor].copy()
-- 
2.43.0


From 3e322d3a56084da07d6f4e5f6bf23ebd08ba8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 11/66] fix: the shipped DES configuration could not be loaded

---
 src/sorcha/data/survey_setups/DES_config_file.ini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/data/survey_setups/DES_config_file.ini b/src/sorcha/data/survey_setups/DES_config_file.ini
index e321bc9..06e0b21 100644
--- a/src/sorcha/data/survey_setups/DES_config_file.ini
+++ b/src/sorcha/data/survey_setups/DES_config_file.ini
@@ -99,7 +99,7 @@ fading_function_on = True
 
 # overall transient efficiency for moving object detection. 0.95529 in Bernardinelli et al (2022).
 # if not specifed will default to 1 and be neglible 
-self.des_transient_efficency = 0.95529
+des_transient_efficency = 0.95529
 
 
 [LINKINGFILTER]
-- 
2.43.0


From 1a5c171d57278c94ba440937d95d8346cc43b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 12/66] fix: link objects whose identifiers are not ASCII

---
 src/sorcha/modules/PPLinkingFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPLinkingFilter.py b/src/sorcha/modules/PPLinkingFilter.py
index d84f2d3..14a3708 100755
--- a/src/sorcha/modules/PPLinkingFilter.py
+++ b/src/sorcha/modules/PPLinkingFilter.py
@@ -67,7 +67,7 @@ def PPLinkingFilter(
 
     obsv = pd.DataFrame(
         {
-            "ssObjectId": observations["ObjID"],
+            "ssObjectId": observations["ObjID"].str.encode("utf-8"),
             "diaSourceId": observations["FieldID"],
             "midPointTai": observations["fieldMJD_TAI"],
             "ra": observations["RA_deg"],
-- 
2.43.0


From df2bd63faf1b0260b526c079fbe58b90e896be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 13/66] fix: a valid DES discovery triplet was missed after a
 lopsided one

---
 src/sorcha/modules/DESDiscoveryFilter.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/modules/DESDiscoveryFilter.py b/src/sorcha/modules/DESDiscoveryFilter.py
index a0e38d6..986b91b 100644
--- a/src/sorcha/modules/DESDiscoveryFilter.py
+++ b/src/sorcha/modules/DESDiscoveryFilter.py
@@ -140,8 +140,6 @@ def compute_triplet(times, thresh):
         returns true if triplet is formed
 
     """
-    first_pair = 999.0
-    second_pair = 999.0
     det = List()
 
     det.append(times[0])
@@ -152,16 +150,13 @@ def compute_triplet(times, thresh):
         if times[i + 1] - times[i] > 0.4:
             det.append(times[i + 1])
 
+    # any three consecutive nights will do: a closer pair elsewhere must not hide a valid triplet
     n = len(det)
     for i in range(1, n - 1):
-        if det[i + 1] - det[i] < first_pair and det[i] - det[i - 1] < second_pair:
-            first_pair = det[i + 1] - det[i]
-            second_pair = det[i] - det[i - 1]
-
-    if first_pair < thresh and second_pair < thresh:
-        return True
-    else:
-        return False
+        if det[i + 1] - det[i] < thresh and det[i] - det[i - 1] < thresh:
+            return True
+
+    return False
 
 
 @numba.jit(
-- 
2.43.0


From 2a8b0f561469f1d312eac0581331b537831f9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 14/66] fix: culling crashed when an observing filter has no
 visits

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..d02b789 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,7 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From 866fec9607e76e5e3cb641781b9685877214530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 15/66] fix: elements of states on the axes, at the apsides and
 on polar orbits

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..fbe4e42 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -424,7 +424,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     incl = np.arccos(h_vec[2] / h)
 
-    if h_vec[0] != 0.0 and h_vec[1] != 0.0:
+    if h_vec[0] != 0.0 or h_vec[1] != 0.0:
         longnode = np.arctan2(h_vec[0], -h_vec[1])
     else:
         longnode = 0.0
@@ -435,7 +435,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     q = p / (1 + e)
 
-    if esintrueanom != 0.0 and ecostrueanom != 0.0:
+    if esintrueanom != 0.0 or ecostrueanom != 0.0:
         trueanom = np.arctan2(esintrueanom, ecostrueanom)
     else:
         trueanom = 0.0
@@ -445,9 +445,9 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     # u is the argument of latitude
     rcosu = pos[0] * cosnode + pos[1] * sinnode
-    rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
+    rsinu = (pos[1] * cosnode - pos[0] * sinnode) * np.cos(incl) + pos[2] * np.sin(incl)
 
-    if rsinu != 0.0 and rcosu != 0.0:
+    if rsinu != 0.0 or rcosu != 0.0:
         u = np.arctan2(rsinu, rcosu)
     else:
         u = 0.0
-- 
2.43.0


From 8c56f46d0faa4822fb9ace51f91d46ef2a8c9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 16/66] fix: long-period comets before perihelion were placed
 on the wrong part of their orbit

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index fbe4e42..253ea5d 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -248,7 +248,8 @@ def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
     if e < 1:
         a = q / (1 - e)
         per = 2 * np.pi / np.sqrt(mu / (a * a * a))
-        t = t % per
+        # count from the nearest perihelion: for long periods "almost a whole period" loses all precision
+        t = t - per * np.round(t / per)
 
     # Establish constants for Kepler's equation,
     # starting at pericenter:
-- 
2.43.0


From 46ff459569c3b43de2602fda7444937060563861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 17/66] fix: ephemeris rows at exact opposition or at the field
 centre became NaN or were lost

---
 src/sorcha/ephemeris/simulation_driver.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..9108909 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -203,7 +203,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
             v = sim_dict[k]
             sim, ex = v["sim"], v["ex"]
             uv /= np.linalg.norm(uv)
-            ang = np.arccos(np.dot(uv, visit_vector)) * 180 / np.pi
+            ang = np.arccos(np.clip(np.dot(uv, visit_vector), -1.0, 1.0)) * 180 / np.pi
             if ang < ang_fov_buffer:
                 (
                     ephem_geom_params.rho,
@@ -214,7 +214,9 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
                 ) = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                 ephem_geom_params.rho_hat = ephem_geom_params.rho / ephem_geom_params.rho_mag
 
-                ang_from_center = 180 / np.pi * np.arccos(np.dot(ephem_geom_params.rho_hat, visit_vector))
+                ang_from_center = (
+                    180 / np.pi * np.arccos(np.clip(np.dot(ephem_geom_params.rho_hat, visit_vector), -1.0, 1.0))
+                )
                 if ang_from_center < ang_fov_buffer:
                     out_tuple = calculate_rates_and_geometry(pointing, ephem_geom_params)
                     in_memory_csv.writerow(out_tuple)
@@ -303,9 +305,9 @@ def calculate_rates_and_geometry(pointing: pd.DataFrame, ephem_geom_params: Ephe
     r_ast_sun = ephem_geom_params.r_ast - r_sun
     v_ast_sun = ephem_geom_params.v_ast - v_sun
     r_ast_obs = ephem_geom_params.r_ast - r_obs
-    phase_angle = np.arccos(
-        np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
-    )
+    cos_phase = np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
+    # rounding can push the cosine just outside [-1, 1] at exact opposition or conjunction
+    phase_angle = np.arccos(np.clip(cos_phase, -1.0, 1.0))
     obs_sun = r_obs - r_sun
     dobs_sundt = v_obs - v_sun
 
-- 
2.43.0


From 5baa0bbc669bfe2b40059801505923d16e8ceb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 18/66] fix: the interpolation window of the ephemeris
 generator shifted the wrong way when times step back

---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..790ea01 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From a0f150a05eac857fb4042c223e555e1690ab06b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 19/66] fix: objects were missing from the sky pixels they
 traverse in the ephemeris generator

---
 src/sorcha/ephemeris/pixel_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 790ea01..f748728 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -281,7 +281,10 @@ class PixelDict:
             pixels = list(set(pixels))
 
             # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            neighbours = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            pixels = neighbours.union(pixels)
+            # healpy marks the neighbours that do not exist with -1
+            pixels.discard(-1)
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 26f233121adb932c8fa534dc63f2985a1787d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 20/66] fix: candidate objects were searched without the
 field-of-view buffer

---
 src/sorcha/ephemeris/simulation_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 9108909..4579204 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -189,7 +189,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         # compute a new set
 
         desigs = pixdict.get_designations(
-            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov
+            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov_buffer
         )
         unit_vectors = pixdict.interpolate_unit_vectors(desigs, pointing["fieldJD_TDB"])
         visit_vector = get_vec(pointing, "visit_vector")
-- 
2.43.0


From 39d3f79271666fdd90029b097a8099c49e62cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 21/66] fix: observatories at zero longitude, on the equator or
 at the geocenter had no position

---
 src/sorcha/ephemeris/simulation_parsing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..1461737 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -338,10 +338,11 @@ class Observatory:
                 Geocentric position (x,y,z)
         """
         returned_tuple = (None, None, None)
+        # zero is a legitimate value (e.g. Greenwich, the geocenter or a pole), so test for absence
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From f84211e84089ef6abca2547a7cfaa351263f43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 22/66] fix: SPICE kernels in directories with long paths could
 not be loaded

---
 src/sorcha/utilities/generate_meta_kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 4412d9b..67eb439 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -63,6 +63,9 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     # build meta_kernel file path
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
     abspath = _split_kernel_path_str(str(retriever.abspath))
+    # no empty piece when the path fills the last piece exactly, and one piece per line,
+    # as SPICE also limits the length of the lines of a text kernel (132 characters)
+    abspath = abspath.removesuffix("+' '").replace("+' '", "+'\n    '")
 
     # build a meta_kernel.txt file
     with open(meta_kernel_file_path, "w") as meta_file:
-- 
2.43.0


From 8db3bb2f336389de97b427e0bf0cadd0aca727b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 23/66] fix: object identifiers that look like numbers lost
 their orbit data in generated ephemerides

---
 src/sorcha/ephemeris/simulation_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4579204..e825671 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,8 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
+    # identifiers that look like numbers (e.g. "00123") have to stay as they are
+    column_types = {"ObjID": str}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
-- 
2.43.0


From 7b1b4b72801180e6f97ab86972595a601694f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 24/66] fix: blank lines in input files shifted the rows read
 after them

---
 src/sorcha/readers/CSVReader.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..d2cb964 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -47,6 +47,10 @@ class CSVDataReader(ObjectDataReader):
         # if we try to read data for specific object IDs.
         self.obj_id_table = None
 
+        # The line number of each data row. Only populated if we try to read
+        # a block of rows that is not at the start of the file.
+        self._row_lines = None
+
     def get_reader_info(self):
         """Return a string identifying the current reader name
         and input information (for logging and output).
@@ -163,6 +167,25 @@ class CSVDataReader(ObjectDataReader):
                         sys.exit(error_str)
         return True
 
+    def _find_row_lines(self):
+        """Finds the line number of each data row. Blank lines are not rows, so
+        the n-th row does not have to be on the n-th line after the header.
+
+        Returns
+        -------
+        : list
+            The (0-indexed) line number of each data row.
+        """
+        if self._row_lines is None:
+            self._row_lines = []
+            self._num_lines = 0
+            with open(self.filename) as fh:
+                for i, line in enumerate(fh):
+                    self._num_lines = i + 1
+                    if i > self.header_row and not line.isspace():
+                        self._row_lines.append(i)
+        return self._row_lines
+
     def _read_rows_internal(self, block_start=0, block_size=None, **kwargs):
         """Reads in a set number of rows from the input.
 
@@ -192,7 +215,9 @@ class CSVDataReader(ObjectDataReader):
         if self.header_row > 0:
             skip_rows = [i for i in range(0, self.header_row)]
         if block_start > 0:
-            skip_rows.extend([i for i in range(self.header_row + 1, self.header_row + 1 + block_start)])
+            row_lines = self._find_row_lines()
+            skip_to = row_lines[block_start - 1] + 1 if block_start <= len(row_lines) else self._num_lines
+            skip_rows.extend([i for i in range(self.header_row + 1, skip_to)])
 
         # Read the rows.
         if self.sep == "whitespace":
-- 
2.43.0


From a556711b385e60a4fd927a134aa6fa61d3e9d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 25/66] fix: object identifiers that look like numbers were
 altered when read

---
 src/sorcha/readers/CSVReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index d2cb964..419ea50 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -226,6 +226,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
         else:
             res_df = pd.read_csv(
@@ -233,6 +234,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
 
         return res_df
@@ -247,6 +249,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 sep="\\s+",
                 usecols=["ObjID"],
+                dtype={"ObjID": str},
                 header=self.header_row,
             )
         else:
@@ -254,6 +257,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 delimiter=",",
                 usecols=["ObjID"],
+                dtype={"ObjID": str},
                 header=self.header_row,
             )
 
@@ -289,12 +293,14 @@ class CSVDataReader(ObjectDataReader):
                     self.filename,
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From 4cfdf882b4bb4b5029b5235797dbeb97026c3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 26/66] fix: HDF5 ephemerides written in several pieces
 returned rows of other objects

---
 src/sorcha/readers/HDF5Reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..ac60969 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -93,9 +94,12 @@ class HDF5DataReader(ObjectDataReader):
             The dataframe for the object data.
         """
         self._build_id_map()
+        # Select by row number. Index values repeat in files written in several pieces.
         row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
+        rows = np.flatnonzero(row_match)
+        if len(rows) == 0:
+            return pd.read_hdf(self.filename, stop=0)
+        res_df = pd.read_hdf(self.filename, where=rows)
         return res_df
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From f302d747c21a35842d64d23a5d0201bcc03bdec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 27/66] fix: spaces in orbit file headings were not removed

---
 src/sorcha/readers/OrbitAuxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 05a1b43..06e804a 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -64,7 +64,7 @@ class OrbitAuxReader(CSVDataReader):
 
         """
         # Do standard CSV file processing
-        super()._process_and_validate_input_table(input_table, **kwargs)
+        input_table = super()._process_and_validate_input_table(input_table, **kwargs)
 
         if len(input_table) == 0:
             return input_table
-- 
2.43.0


From e8101d16c92144bd68ecb156b61012cfe02cb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 28/66] fix: ephemeris files lacking a column crashed instead
 of being refused

---
 src/sorcha/readers/EphemerisReader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sorcha/readers/EphemerisReader.py b/src/sorcha/readers/EphemerisReader.py
index 98c2eb1..55b2ef6 100755
--- a/src/sorcha/readers/EphemerisReader.py
+++ b/src/sorcha/readers/EphemerisReader.py
@@ -175,6 +175,13 @@ class EphemerisDataReader(ObjectDataReader):
                         "ERROR: EphemerisDataReader: column headings do not match expected ephemeris column headings. Check format of file."
                     )
 
+        missing = [column for column in ephem_cols if column not in input_table.columns]
+        if missing:
+            pplogger = logging.getLogger(__name__)
+            error_str = f"ERROR: EphemerisDataReader: ephemeris is missing the columns {', '.join(missing)}."
+            pplogger.error(error_str)
+            sys.exit(error_str)
+
         # Return only the columns of interest.
         return input_table[ephem_cols]
 
-- 
2.43.0


From f1c3bce556d985e6f60ae21a39497337344c5830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 29/66] fix: ephemeris rows half a day away from their visit
 were accepted

---
 src/sorcha/modules/PPMatchPointingToObservations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPMatchPointingToObservations.py b/src/sorcha/modules/PPMatchPointingToObservations.py
index 347b744..645edc3 100644
--- a/src/sorcha/modules/PPMatchPointingToObservations.py
+++ b/src/sorcha/modules/PPMatchPointingToObservations.py
@@ -59,7 +59,9 @@ def PPMatchPointingToObservations(padain, pointfildb):
 
     resdf = resdf.dropna(subset=["optFilter"]).reset_index(drop=True)
 
-    chktruemjd = np.isclose(resdf["observationStartMJD_TAI"], resdf["fieldMJD_TAI"])
+    # the ephemeris can be for any time during the visit, but not for another visit hours away: a
+    # relative tolerance on MJDs would allow differences of more than half a day.
+    chktruemjd = np.isclose(resdf["observationStartMJD_TAI"], resdf["fieldMJD_TAI"], rtol=0, atol=0.01)
 
     if not chktruemjd.all():
         logging.error(
-- 
2.43.0


From 6d7e4ab4cbddbed40b79ffc5ec31baaced584e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 30/66] fix: pointing databases with special characters in
 their path could not be read

---
 src/sorcha/modules/PPReadPointingDatabase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPReadPointingDatabase.py b/src/sorcha/modules/PPReadPointingDatabase.py
index faa55aa..f18e461 100644
--- a/src/sorcha/modules/PPReadPointingDatabase.py
+++ b/src/sorcha/modules/PPReadPointingDatabase.py
@@ -2,6 +2,7 @@ import sqlite3
 import pandas as pd
 import logging
 import sys
+from urllib.parse import quote
 
 
 def PPReadPointingDatabase(bsdbname, observing_filters, dbquery, surveyname, fading_function_on=0):
@@ -32,7 +33,7 @@ def PPReadPointingDatabase(bsdbname, observing_filters, dbquery, surveyname, fad
 
     pplogger = logging.getLogger(__name__)
 
-    con = sqlite3.connect("file:" + bsdbname + "?mode=ro", uri=True)
+    con = sqlite3.connect("file:" + quote(str(bsdbname)) + "?mode=ro", uri=True)
 
     try:
         df = pd.read_sql_query(dbquery, con)
-- 
2.43.0


From 133204db3fdd21780b81bc5c9e6dbb6fad16365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 31/66] fix: runs returning their results crashed when nothing
 was detected

---
 src/sorcha/des.py    | 4 ++--
 src/sorcha/sorcha.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..c1ede87 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -400,8 +400,8 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..9415155 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,8 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From ca4964e16c9fde9ebe238bd3dd055b62d13b5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 32/66] fix: HDF5 output failed when a later chunk had longer
 identifiers

---
 src/sorcha/modules/PPOutput.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..bfd310a 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -67,9 +67,16 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
-    store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
-    store.close()
+    with pd.HDFStore(outf) as store:
+        try:
+            store.append(keyname, pp_results, format="t", data_columns=True)
+        except ValueError:
+            # tables have strings of fixed length: when this piece has longer ones (e.g. longer ObjIDs)
+            # than all the pieces before it, the table has to be stored anew
+            stored = store.select(keyname) if keyname in store else None
+            if stored is None or list(stored.columns) != list(pp_results.columns):
+                raise
+            store.put(keyname, pd.concat([stored, pp_results]), format="t", data_columns=True)
 
     return
 
-- 
2.43.0


From c519df0d90a234402bfbe115cd2b46eac2c1d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 33/66] fix: zero decimal places in the output configuration
 was ignored

---
 src/sorcha/modules/PPOutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index bfd310a..c052f5d 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -212,7 +212,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -229,7 +229,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
-- 
2.43.0


From 6d551beff427df2f9937dfecddd724348fd19c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 34/66] fix: chunks without observations in the survey filters
 crashed with filter-specific phase parameters

---
 src/sorcha/modules/PPApplyColourOffsets.py | 36 +++++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index d6ae8fc..287e24b 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -4,6 +4,32 @@ import numpy as np
 import fnmatch
 
 
+def filter_specific_values(observations, parameter):
+    """
+    Picks the value of a filter-specific parameter in the filter of each observation.
+
+    Parameters
+    -----------
+    observations : Pandas dataframe
+        dataframe of observations, which can be empty.
+
+    parameter : string
+        Name of the parameter: the values are in the columns with this name followed by that of the filter.
+
+    Returns
+    -----------
+    values : numpy array
+        The values for each observation.
+
+    """
+    values = np.zeros(len(observations))
+    for filt in observations["optFilter"].unique():
+        mask = (observations["optFilter"] == filt).values
+        values[mask] = observations.loc[mask, parameter + filt]
+
+    return values
+
+
 def PPApplyColourOffsets(observations, function, othercolours, observing_filters, mainfilter):
     """
     Adds the correct colour offset to H based on the filter of each observation,
@@ -85,8 +111,8 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "G1", "G2"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["G1"] = observations.apply(lambda row: row["G1" + row["optFilter"]], axis=1)
-            observations["G2"] = observations.apply(lambda row: row["G2" + row["optFilter"]], axis=1)
+            observations["G1"] = filter_specific_values(observations, "G1")
+            observations["G2"] = filter_specific_values(observations, "G2")
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -103,7 +129,7 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "GS"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["GS"] = observations.apply(lambda row: row["GS" + row["optFilter"]], axis=1)
+            observations["GS"] = filter_specific_values(observations, "GS")
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -120,7 +146,7 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "G12"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["G12"] = observations.apply(lambda row: row["G12" + row["optFilter"]], axis=1)
+            observations["G12"] = filter_specific_values(observations, "G12")
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -137,7 +163,7 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "S"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["S"] = observations.apply(lambda row: row["S" + row["optFilter"]], axis=1)
+            observations["S"] = filter_specific_values(observations, "S")
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
-- 
2.43.0


From cf075d8b7984d6a75c93918e413f3e81d136a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 35/66] fix: statistics flagged unlinked objects as linked in
 filters without observations

---
 src/sorcha/modules/PPStats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPStats.py b/src/sorcha/modules/PPStats.py
index a1efbde..9d6472e 100644
--- a/src/sorcha/modules/PPStats.py
+++ b/src/sorcha/modules/PPStats.py
@@ -48,7 +48,8 @@ def stats(observations, statsfilename, outpath, sconfigs, return_only=False):
     num_obs = group_by.agg("size").to_frame("number_obs")
 
     if sconfigs.linkingfilter.ssp_linking_on and not sconfigs.linkingfilter.drop_unlinked:
-        linked = group_by["object_linked"].agg("all").to_frame("object_linked")
+        # being linked is a property of the object, also for filters in which it has no observations
+        linked = num_obs.join(observations.groupby("ObjID")["object_linked"].agg("all"))[["object_linked"]]
         date_linked = group_by["date_linked_MJD"].agg("first").to_frame("date_linked_MJD")
         joined_stats = num_obs.join([mag, phase_deg, linked, date_linked])
     elif sconfigs.linkingfilter.ssp_linking_on:
-- 
2.43.0


From f739441aea85570cebeb3738e758c9898ddde7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 36/66] fix: blank lines before the column headings broke
 reading by object identifier

---
 src/sorcha/readers/CSVReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 419ea50..761fd24 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -250,7 +250,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 usecols=["ObjID"],
                 dtype={"ObjID": str},
-                header=self.header_row,
+                skiprows=self.header_row,
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -258,7 +258,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 usecols=["ObjID"],
                 dtype={"ObjID": str},
-                header=self.header_row,
+                skiprows=self.header_row,
             )
 
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
-- 
2.43.0


From 1ed1323c6d564e56b154af329f593baa73d47f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 37/66] fix: CSV rows with more entries than headings were read
 into the wrong columns

---
 src/sorcha/readers/CSVReader.py | 47 ++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 761fd24..153232c 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -1,6 +1,7 @@
 import pandas as pd
 import logging
 import sys
+import warnings
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
 
@@ -167,6 +168,34 @@ class CSVDataReader(ObjectDataReader):
                         sys.exit(error_str)
         return True
 
+    def _read_csv(self, **kwargs):
+        """Calls pandas.read_csv() on the file. Rows with more entries than there are
+        column headings are refused. By default pandas would take the first entries of
+        the rows as the index and shift all others to the wrong columns.
+
+        Parameters
+        ----------
+        **kwargs : dictionary
+            The arguments for pandas.read_csv().
+
+        Returns
+        -------
+        : pandas dataframe
+            The table as read by pandas.
+        """
+        with warnings.catch_warnings():
+            warnings.simplefilter("error", category=pd.errors.ParserWarning)
+            try:
+                return pd.read_csv(self.filename, index_col=False, **kwargs)
+            except (pd.errors.ParserWarning, pd.errors.ParserError) as current_exc:
+                pplogger = logging.getLogger(__name__)
+                error_str = (
+                    f"ERROR: CSVReader: rows of {self.filename} do not match its column headings ({current_exc}). "
+                    "Confirm that you are using the correct delimiter and that it is not part of an ObjID."
+                )
+                pplogger.error(error_str)
+                sys.exit(error_str)
+
     def _find_row_lines(self):
         """Finds the line number of each data row. Blank lines are not rows, so
         the n-th row does not have to be on the n-th line after the header.
@@ -221,16 +250,14 @@ class CSVDataReader(ObjectDataReader):
 
         # Read the rows.
         if self.sep == "whitespace":
-            res_df = pd.read_csv(
-                self.filename,
+            res_df = self._read_csv(
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
                 dtype={"ObjID": str},
             )
         else:
-            res_df = pd.read_csv(
-                self.filename,
+            res_df = self._read_csv(
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
@@ -245,16 +272,14 @@ class CSVDataReader(ObjectDataReader):
             return
 
         if self.sep == "whitespace":
-            self.obj_id_table = pd.read_csv(
-                self.filename,
+            self.obj_id_table = self._read_csv(
                 sep="\\s+",
                 usecols=["ObjID"],
                 dtype={"ObjID": str},
                 skiprows=self.header_row,
             )
         else:
-            self.obj_id_table = pd.read_csv(
-                self.filename,
+            self.obj_id_table = self._read_csv(
                 delimiter=",",
                 usecols=["ObjID"],
                 dtype={"ObjID": str},
@@ -289,15 +314,13 @@ class CSVDataReader(ObjectDataReader):
         # Read the rows.
         try:
             if self.sep == "whitespace":
-                res_df = pd.read_csv(
-                    self.filename,
+                res_df = self._read_csv(
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
                     dtype={"ObjID": str},
                 )
             else:
-                res_df = pd.read_csv(
-                    self.filename,
+                res_df = self._read_csv(
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
                     dtype={"ObjID": str},
-- 
2.43.0


From 7741b7ed67344bdcecc0488bb509fa2d277a85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 38/66] fix: an orbit file with different FORMATs in different
 chunks was accepted

---
 src/sorcha/readers/OrbitAuxReader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 06e804a..a60d434 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -29,6 +29,9 @@ class OrbitAuxReader(CSVDataReader):
         """
         super().__init__(filename, sep, header, **kwargs)
 
+        # The FORMAT of the rows read so far. The file can be read in several blocks.
+        self._orbit_format = None
+
     def get_reader_info(self):
         """Return a string identifying the current reader name
         and input information (for logging and output).
@@ -80,7 +83,9 @@ class OrbitAuxReader(CSVDataReader):
             sys.exit("ERROR: Please only provide the required columns in your orbits file.")
 
         orb_format = input_table["FORMAT"].iloc[0]
-        if len(input_table["FORMAT"].unique()) != 1:
+        if self._orbit_format is None:
+            self._orbit_format = orb_format
+        if len(input_table["FORMAT"].unique()) != 1 or orb_format != self._orbit_format:
             pplogger.error("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
             sys.exit("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
 
-- 
2.43.0


From 7393ea1d0461f770f385d71d4ad0653aad681b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 39/66] fix: orbits with missing or infinite elements crashed
 or hung the ephemeris generation

---
 src/sorcha/readers/OrbitAuxReader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index a60d434..995be16 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -1,6 +1,7 @@
 import logging
 import sys
 import numpy as np
+import pandas as pd
 
 from sorcha.readers.CSVReader import CSVDataReader
 
@@ -93,6 +94,14 @@ class OrbitAuxReader(CSVDataReader):
         cometary_elements = ["ObjID", "q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"]
         cartesian_elements = ["ObjID", "x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"]
 
+        # missing or infinite elements cannot be propagated (or even crash the ephemeris generation)
+        elements = input_table.drop(columns=["ObjID", "FORMAT"]).apply(pd.to_numeric, errors="coerce")
+        filtered_df = input_table.loc[~np.isfinite(elements).all(axis=1), ["ObjID"]]
+        if not filtered_df.empty:
+            error_str = f"ERROR: For Object(s) {', '.join(filtered_df['ObjID'].astype(str))}. Orbital elements or epoch are missing or not finite numbers."
+            pplogger.error(error_str)
+            sys.exit(error_str)
+
         if orb_format in ["KEP", "BKEP"]:
             if not all(column in input_table.columns for column in keplerian_elements):
                 pplogger.error("ERROR: PPReadOrbitFile: Must provide all keplerian orbital elements.")
-- 
2.43.0


From d4f0e4065f2820b853a6f82116958b13ee18e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 40/66] fix: a chunk size of zero or less made a run loop
 forever

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 3b93885..bf8feee 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is zero or negative.")
+            sys.exit("ERROR: size_serial_chunk is zero or negative.")
 
 
 @dataclass
-- 
2.43.0


From 5d4f2cd35db10492fc300fd7d84cc0bf3f92acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 41/66] fix: 'nan' in the config file was taken as a number and
 passed all bounds checks

---
 src/sorcha/utilities/sorchaConfigs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index bf8feee..f530fd0 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -256,6 +256,8 @@ class saturationConfigs:
             if isinstance(self.bright_limit, str):
                 try:
                     self.bright_limit = [float(e.strip()) for e in self.bright_limit.split(",")]
+                    if np.isnan(self.bright_limit).any():
+                        raise ValueError("bright_limit is not a number")
                 except ValueError:
                     logging.error("ERROR: could not parse brightness limits. Check formatting and try again.")
                     sys.exit("ERROR: could not parse brightness limits. Check formatting and try again.")
@@ -1401,8 +1403,12 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        is_nan = np.isnan(float(value))
     except ValueError:
+        is_nan = True
+
+    # nan is not a value to compare with: all checks of the allowed range would pass
+    if is_nan:
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
 
-- 
2.43.0


From 7d8025e1eef287bb678fb26d0cf93b0654218767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 42/66] fix: negative ar_ang_fov, ar_fov_buffer, ar_picket,
 ar_healpix_order and ar_n_sub_intervals were accepted

---
 src/sorcha/utilities/sorchaConfigs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index f530fd0..00f8cf2 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -118,6 +118,16 @@ class simulationConfigs:
             self.ar_picket = cast_as_int(self.ar_picket, "ar_picket")
             self.ar_healpix_order = cast_as_int(self.ar_healpix_order, "ar_healpix_order")
             self.ar_n_sub_intervals = cast_as_int(self.ar_n_sub_intervals, "ar_n_sub_intervals")
+            for key, minimum in [
+                ("ar_ang_fov", 0),
+                ("ar_fov_buffer", 0),
+                ("ar_picket", 1),
+                ("ar_healpix_order", 0),
+                ("ar_n_sub_intervals", 1),
+            ]:
+                if getattr(self, key) < minimum:
+                    logging.error(f"ERROR: {key} out of bounds. Must be at least {minimum}.")
+                    sys.exit(f"ERROR: {key} out of bounds. Must be at least {minimum}.")
         elif self._ephemerides_type == "external":
             # makes sure when these are not needed that they are not populated
             check_key_doesnt_exist(self.ar_ang_fov, "ar_ang_fov", "but ephemerides type is external")
-- 
2.43.0


From c01c08815c9fbb4759e4367e1341d6efd7988db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 43/66] fix: des_transient_efficency outside 0 to 1 was
 accepted

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 00f8cf2..85dec0d 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -500,6 +500,9 @@ class fadingfunctionConfigs:
                 self.des_transient_efficency = cast_as_float(
                     self.des_transient_efficency, "des_transient_efficency"
                 )
+                if self.des_transient_efficency < 0.0 or self.des_transient_efficency > 1.0:
+                    logging.error("ERROR: des_transient_efficency out of bounds. Must be between 0 and 1.")
+                    sys.exit("ERROR: des_transient_efficency out of bounds. Must be between 0 and 1.")
             else:
                 self.des_transient_efficency = 1  # won't impact detection efficency when 1
         check_key_doesnt_exist(
-- 
2.43.0


From 685e2498f0dc04cdfdaf9ed37af02636c3601b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 44/66] fix: refusing unsupported options of DES failed with an
 internal error

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 85dec0d..d493830 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -959,7 +959,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -971,7 +971,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From ac8e90e1de9e9847668c93f34d5842cc4f38af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 45/66] fix: '%' in a config value (e.g. LIKE in the pointing
 query) was an internal error

---
 src/sorcha/utilities/sorchaConfigs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index d493830..9220e63 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1240,7 +1240,7 @@ class sorchaConfigs(basesorchaConfigs):
             with open(config_file_location, "r") as file:
                 logging.info(f"Copy of configuration file {config_file_location}:\n{file.read()}")
 
-            config_object = configparser.ConfigParser()  # create a ConfigParser object
+            config_object = configparser.ConfigParser(interpolation=None)  # create a ConfigParser object
             config_object.read(config_file_location)  # and read the whole config file into it
             self._read_configs_from_object(
                 config_object
-- 
2.43.0


From 497aa79101e625694b931d91824b35edabe6e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 46/66] fix: an auxiliary file named without its url was to be
 downloaded from the url of the default file

---
 src/sorcha/utilities/sorchaConfigs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 9220e63..6abbbba 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1087,8 +1087,8 @@ class auxiliaryConfigs:
 
     def __post_init__(self):
         """Automagically validates the auxiliary configs after initialisation."""
-        self._create_lists_auxiliary_configs()
         self._validate_auxiliary_configs()
+        self._create_lists_auxiliary_configs()
 
     def _validate_auxiliary_configs(self):
         """
-- 
2.43.0


From a429cf9d6d15a637355ac997a73f6902385bbf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 47/66] fix: the log denied rounding to 0 decimals and named an
 edge threshold that is not applied

---
 src/sorcha/utilities/sorchaConfigs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 6abbbba..a55392e 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1602,14 +1602,14 @@ def PrintConfigsToLog(sconfigs, cmd_args):
                 pplogger.info("Loading default LSST footprint LSST_detector_corners_100123.csv")
             if cmd_args.surveyname.lower() == "des":
                 pplogger.info("Loading default DES footprint DES_ccd_corners.csv")
-        if sconfigs.fov.footprint_edge_threshold:
+        if sconfigs.fov.footprint_edge_threshold is not None:
             pplogger.info(
                 "The footprint edge threshold is "
                 + str(sconfigs.fov.footprint_edge_threshold)
                 + " arcseconds"
             )
         else:
-            pplogger.info("Default footprint edge threshold used (10px or 2 arcseconds).")
+            pplogger.info("No footprint edge threshold is applied.")
     elif sconfigs.fov.camera_model == "circle":
         pplogger.info("Footprint is circular.")
         if sconfigs.fov.fill_factor:
@@ -1750,7 +1750,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         "Output files will be saved in path: " + cmd_args.outpath + " with filestem " + cmd_args.outfilestem
     )
     pplogger.info("Output files will be saved as format: " + sconfigs.output.output_format)
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         pplogger.info(
             "In the output, positions will be rounded to "
             + str(sconfigs.output.position_decimals)
@@ -1758,7 +1758,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         )
     else:
         pplogger.info("In the output, positions will not be rounded")
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         pplogger.info(
             "In the output, magnitudes will be rounded to "
             + str(sconfigs.output.magnitude_decimals)
-- 
2.43.0


From 3e5fe7bd39bbf47b1541f4d5c9e66cb1124a4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 48/66] fix: a light-curve or activity model without -cp file
 ends with its error message instead of a KeyError

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From 4a7b227b01b18cb9f024d41b6d8917218ee1e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 49/66] fix: existing-file check treats names literally,
 removes all files of this run and none of other runs or inputs

---
 .../utilities/sorchaCommandLineParser.py      | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..5f9576d 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -5,7 +5,7 @@ import glob
 from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
 
 
-def warn_or_remove_file(filepath, force_remove, pplogger):
+def warn_or_remove_file(filepath, force_remove, pplogger, inputs=()):
     """Given a path to a file(s), first determine if the file exists. If it does not
     exist, pass through.
 
@@ -16,18 +16,23 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     Parameters
     ----------
     filepath : string
-        The full file path to a given file. i.e. /home/data/output.csv
+        The full file path to a given file. i.e. /home/data/output.csv. If it ends in ".*",
+        files with any extension (but not with more than one, which are of other runs) are
+        considered.
     force_remove : boolean
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
+    inputs : list of strings
+        Files which are inputs of this run and thus must never be removed.
     """
-    file_exists = glob.glob(filepath)
+    if filepath.endswith(".*"):
+        stem = filepath[: -len("*")]
+        existing_files = [fn for fn in glob.glob(glob.escape(stem) + "*") if "." not in fn[len(stem) :]]
+    else:
+        existing_files = [filepath] if os.path.lexists(filepath) else []
 
-    if file_exists and force_remove:
-        pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
-    elif file_exists and not force_remove:
+    if existing_files and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
         )
@@ -35,6 +40,16 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
         )
 
+    for existing_file in existing_files:
+        is_input = os.path.realpath(existing_file) in [os.path.realpath(fn) for fn in inputs]
+        if is_input or os.path.isdir(existing_file):
+            pplogger.error(f"ERROR: {existing_file} is an input file or a directory and will not be deleted.")
+            sys.exit(f"ERROR: {existing_file} is an input file or a directory and will not be deleted.")
+
+    for existing_file in existing_files:
+        pplogger.info(f"Existing file found at {existing_file}. -f flag set: deleting existing file.")
+        os.remove(existing_file)
+
 
 def sorchaCommandLineParser(args):
     """
@@ -82,12 +97,16 @@ def sorchaCommandLineParser(args):
     else:
         cmd_args_dict["visits_database"] = args.vd
 
+    # files which may not be deleted, whatever the names of the outputs
+    inputs = [fn for fn in (args.p, args.ob, args.c, args.pd, args.cp, args.er, args.vd) if fn]
+
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
             os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
             args.f,
             pplogger,
+            inputs,
         )
 
     cmd_args_dict["surveyname"] = args.s
@@ -97,7 +116,7 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger, inputs
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -105,7 +124,7 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger, inputs
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From 57258ab7af584e0a0f619d8956ea2e4cb6f616c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 50/66] fix: the output of check-logs is looked for under the
 name it is written to

---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From 53fe9720d743fdbf68143c399d7ad434671e06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 51/66] fix: refuse runs whose output, statistics and ephemeris
 would be written into the same file

---
 src/sorcha_cmdline/run.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index a14f3bd..92b28ff 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -172,6 +172,20 @@ def execute(args):
     sconfigs = sorchaConfigs(cmd_args["configfile"], cmd_args["surveyname"])
     pplogger.info("Configuration file read.")
 
+    # the output files of one run must not be written into each other
+    written = [
+        cmd_args["outfilestem"] + {"csv": ".csv", "sqlite3": ".db"}.get(sconfigs.output.output_format, ".h5")
+    ]
+    if cmd_args["stats"] is not None:
+        written.append(cmd_args["stats"] + ".csv")
+    if cmd_args["output_ephemeris_file"] and sconfigs.input.ephemerides_type == "ar":
+        written.append(
+            cmd_args["output_ephemeris_file"] + (".h5" if sconfigs.input.eph_format == "hdf5" else ".csv")
+        )
+    if len({os.path.normpath(os.path.join(outpath, fn)) for fn in written}) < len(written):
+        pplogger.error("ERROR: the output, statistics and ephemeris files must have different names.")
+        sys.exit("ERROR: the output, statistics and ephemeris files must have different names.")
+
     if sconfigs.input.ephemerides_type == "external" and cmd_args["input_ephemeris_file"] is None:
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
-- 
2.43.0


From e9d87f55f11c7ee5216bfd6dbc2d955e48c1abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 52/66] fix: create-sqlite reads each output once and never the
 database it makes

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..366fe76 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -25,7 +25,7 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         Connection to sqlite3 database.
 
     filename : string
-        filepath/name of sqlite3 database.
+        filepath/name of the sqlite3 database being created, which is not to be read as an output.
 
     output_path : string
         filepath of directory containing SSPP output folders.
@@ -42,10 +42,12 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(
+        os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
+    )
 
-    if filename in output_list:
-        output_list.remove(filename)
+    # every file is read once, also if there are links to it, and the database being made is not an output
+    output_list = sorted({os.path.realpath(fn) for fn in output_list} - {os.path.realpath(filename)})
 
     if not output_list:
         sys.exit("Could not find any .db files using given filepath and stem.")
@@ -146,7 +148,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From 98fa5f002ac1bb6805d9db4ecaa300deaa9bb199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 53/66] fix: create-sqlite matches the columns of the outputs
 by name

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 366fe76..dc2606a 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -52,7 +52,9 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
     if not output_list:
         sys.exit("Could not find any .db files using given filepath and stem.")
 
-    column_names = get_column_names(output_list[0])
+    # the outputs may differ in the order of their columns or have additional ones
+    file_columns = {fn: get_column_names(fn) for fn in output_list}
+    column_names = list(dict.fromkeys(col for columns in file_columns.values() for col in columns))
 
     cur_out = cnx_out.cursor()
     cur_out.execute("DROP TABLE if exists " + table_name)
@@ -64,11 +66,13 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     cur_out.execute(create_command)
 
-    # building the correct SQL command to add data
-    questions = "(" + (len(column_names) - 1) * "?, " + "?)"
-    sql_command = "INSERT into " + table_name + " VALUES " + questions
-
     for filename in output_list:
+        # building the correct SQL command to add data
+        column_names = file_columns[filename]
+        column_string = "([" + "], [".join(column_names) + "])"
+        questions = "(" + (len(column_names) - 1) * "?, " + "?)"
+        sql_command = "INSERT into " + table_name + column_string + " VALUES " + questions
+
         con = sqlite3.connect(filename)
         cur = con.cursor()
 
-- 
2.43.0


From 712960fc749bc99c48b28be74e8f4148fa81fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 54/66] fix: create-sqlite ignores databases which are not
 Sorcha outputs

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index dc2606a..c9b0d87 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -54,6 +54,13 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     # the outputs may differ in the order of their columns or have additional ones
     file_columns = {fn: get_column_names(fn) for fn in output_list}
+    for fn in [fn for fn, columns in file_columns.items() if not columns]:
+        print("{} is not a Sorcha output and is ignored.".format(fn))
+        output_list.remove(fn)
+
+    if not output_list:
+        sys.exit("Could not find any .db files using given filepath and stem.")
+
     column_names = list(dict.fromkeys(col for columns in file_columns.values() for col in columns))
 
     cur_out = cnx_out.cursor()
@@ -175,14 +182,14 @@ def get_column_names(filename, table_name="sorcha_results"):
 
     Returns
     -----------
-    col_names (list): list of column names.
+    col_names (list): list of column names (empty if there is no such table).
 
     """
 
     con_col = sqlite3.connect(filename)
     cur_col = con_col.cursor()
-    cur_col.execute("SELECT * from " + table_name)
-    col_names = list(map(lambda x: x[0], cur_col.description))
+    cur_col.execute("SELECT name from pragma_table_info(?)", (table_name,))
+    col_names = list(map(lambda x: x[0], cur_col.fetchall()))
     cur_col.close()
 
     return col_names
-- 
2.43.0


From 47f1f1925ad4cc38cfaf89a3d8f07b9cb18e244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 55/66] fix: create-sqlite keeps ObjIDs as written and accepts
 inputs with different columns

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index c9b0d87..fc8d6e1 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -14,6 +14,8 @@ import argparse
 import sys
 import os
 
+from sorcha.readers.CSVReader import CSVDataReader
+
 
 def create_results_table(cnx_out, filename, output_path, output_stem, table_name="sorcha_results"):
     """
@@ -117,7 +119,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(os.path.join(glob.escape(input_path), table_type + "*"))
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
@@ -125,13 +127,18 @@ def create_inputs_table(cnx_out, input_path, table_type):
     cur_out = cnx_out.cursor()
     cur_out.execute("DROP TABLE if exists " + table_type)
 
-    for filename in input_list:
-        df = pd.read_csv(filename, sep="\\s+")
+    tables = []
+    for filename in sorted(input_list):
+        # reads the ObjIDs as they are written, also those which look like numbers
+        df = CSVDataReader(filename, sep="whitespace").read_rows()
 
         if "INDEX" in df.columns:
             df = df.rename(columns={"INDEX": "orig_index"})
 
-        df.to_sql(table_type, cnx_out, if_exists="append")
+        tables.append(df)
+
+    # the files may differ in their columns (e.g. orbits in different formats)
+    pd.concat(tables).to_sql(table_type, cnx_out, if_exists="append")
 
     cur_out.close()
 
-- 
2.43.0


From 31096230654267e46b2389d2cbe2f53e9bbaa47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 56/66] fix: check-logs fails on empty and non-text logs
 instead of reporting them

---
 src/sorcha/utilities/check_output_logs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..08d11f1 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -51,9 +51,10 @@ def check_all_logs(log_files):
     last_lines = []
 
     for log_file in log_files:
-        with open(log_file, "r") as f:
+        with open(log_file, "r", errors="replace") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            # a run that was ended straight away leaves an empty log
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From 98a73b91344f4df98fcec1c2b0c5fe58e93523b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 57/66] fix: the identity activity model could not be called
 with the arguments activity models are given

---
 src/sorcha/activity/base_activity.py     | 21 ++++++++++++++++++++-
 src/sorcha/activity/identity_activity.py | 10 +++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index 8db3bbf..c5cee5e 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -23,7 +23,9 @@ class AbstractCometaryActivity(ABC):
         self.required_column_names = required_column_names
 
     @abstractmethod
-    def compute(self, df: pd.DataFrame) -> np.array:
+    def compute(
+        self, df: pd.DataFrame, observing_filters: List[str], rho: np.array, delta: np.array, alpha: np.array
+    ) -> pd.DataFrame:
         """User implemented calculation based on the input provided by the
         pandas dataframe ``df``.
 
@@ -31,6 +33,23 @@ class AbstractCometaryActivity(ABC):
         ----------
         df : Pandas dataframe
             The ``observations`` dataframe provided by ``Sorcha``.
+
+        observing_filters : list of strings
+            The photometric filters of the survey.
+
+        rho : numpy array
+            Heliocentric distance of each observation [units au].
+
+        delta : numpy array
+            Distance to Earth of each observation [units au].
+
+        alpha : numpy array
+            Phase angle of each observation [units degrees].
+
+        Returns
+        -------
+        Pandas dataframe
+            The ``observations`` dataframe with updated trailedSourceMagTrue.
         """
         raise NotImplementedError("Must be implemented by the subclass")
 
diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 70ed0de..5f7ac14 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -20,15 +20,19 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
     def __init__(self) -> None:
         super().__init__()
 
-    def compute(self, df: pd.DataFrame) -> pd.DataFrame:
-        """Returns numpy array of 0's with shape equal to the input dataframe
-        time column.
+    def compute(
+        self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None
+    ) -> pd.DataFrame:
+        """Returns the input dataframe unchanged.
 
         Parameters
         ----------
         df : pd.DataFrame
             The ``observations`` dataframe provided by ``Sorcha``.
 
+        observing_filters, rho, delta, alpha
+            Further arguments provided by ``Sorcha``, see the base class. Not used.
+
         Returns
         -------
         pd.DataFrame
-- 
2.43.0


From 0425ca804b47c49f352547272587350af61bdfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 58/66] fix: models without maxBrightness, as the template
 classes are, end runs which cut faint objects with an error

---
 src/sorcha/activity/base_activity.py          | 25 +++++++++++++++++++
 src/sorcha/activity/identity_activity.py      | 18 +++++++++++++
 src/sorcha/lightcurves/base_lightcurve.py     | 17 +++++++++++++
 src/sorcha/lightcurves/identity_lightcurve.py | 15 +++++++++++
 4 files changed, 75 insertions(+)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index c5cee5e..f4a9dd5 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -53,6 +53,31 @@ class AbstractCometaryActivity(ABC):
         """
         raise NotImplementedError("Must be implemented by the subclass")
 
+    def maxBrightness(
+        self, df: pd.DataFrame, observing_filters: List[str], rho: np.array, delta: np.array, alpha: np.array
+    ) -> np.array:
+        """The brightest apparent magnitude each object can reach, which is used to cut objects which
+        cannot be observed before the ephemeris is calculated. Subclasses may override this. By default
+        nothing is assumed, so that no object is cut.
+
+        Parameters
+        ----------
+        df : Pandas dataframe
+            A dataframe of the objects, with the brightest magnitude without activity as trailedSourceMagTrue.
+
+        observing_filters : list of strings
+            The filter in which the magnitude is wanted.
+
+        rho, delta, alpha : numpy arrays
+            Heliocentric distance, distance to Earth and phase angle at the brightest [units au, au and degrees].
+
+        Returns
+        -------
+        numpy array
+            Magnitude of each object.
+        """
+        return np.full(len(df), -np.inf)
+
     def _validate_column_names(self, df: pd.DataFrame) -> None:
         """Private method that checks that the provided pandas dataframe contains
            the required columns defined in ``self.required_column_names``.
diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 5f7ac14..a5e5e35 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -43,6 +43,24 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
 
         return df
 
+    def maxBrightness(self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None):
+        """Returns the magnitudes without activity.
+
+        Parameters
+        ----------
+        df : pd.DataFrame
+            A dataframe of the objects.
+
+        observing_filters, rho, delta, alpha
+            Further arguments provided by ``Sorcha``, see the base class. Not used.
+
+        Returns
+        -------
+        np.array
+            The trailedSourceMagTrue column of the dataframe.
+        """
+        return df["trailedSourceMagTrue"].values
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this cometary activity method. It
diff --git a/src/sorcha/lightcurves/base_lightcurve.py b/src/sorcha/lightcurves/base_lightcurve.py
index 232f272..7864d7b 100644
--- a/src/sorcha/lightcurves/base_lightcurve.py
+++ b/src/sorcha/lightcurves/base_lightcurve.py
@@ -34,6 +34,23 @@ class AbstractLightCurve(ABC):
         """
         raise NotImplementedError("Must be implemented by the subclass")
 
+    def maxBrightness(self, df: pd.DataFrame) -> np.array:
+        """The most negative change of magnitude each object can have, which is used to cut objects which
+        cannot be observed before the ephemeris is calculated. Subclasses may override this. By default
+        nothing is assumed, so that no object is cut.
+
+        Parameters
+        ----------
+        df : Pandas dataframe
+            A dataframe of the objects.
+
+        Returns
+        -------
+        numpy array
+            Change of magnitude for each object.
+        """
+        return np.full(len(df), -np.inf)
+
     def _validate_column_names(self, df: pd.DataFrame) -> None:
         """Private method that checks that the provided pandas dataframe contains
            the required columns defined in ``self.required_column_names``.
diff --git a/src/sorcha/lightcurves/identity_lightcurve.py b/src/sorcha/lightcurves/identity_lightcurve.py
index ecd9be5..049e598 100644
--- a/src/sorcha/lightcurves/identity_lightcurve.py
+++ b/src/sorcha/lightcurves/identity_lightcurve.py
@@ -40,6 +40,21 @@ class IdentityLightCurve(AbstractLightCurve):
 
         return np.zeros_like(df["fieldMJD_TAI"])
 
+    def maxBrightness(self, df: pd.DataFrame) -> np.array:
+        """Returns numpy array of 0's with one element for each object.
+
+        Parameters
+        ----------
+        df : Pandas dataframe
+            A dataframe of the objects.
+
+        Returns
+        -------
+        np.array
+            Numpy array of 0's with one element for each row of the input dataframe.
+        """
+        return np.zeros(len(df))
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this light curve method. It must be
-- 
2.43.0


From 264a3cc7df3ba4d1aafa112df1df4962aae456d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 59/66] fix: logging an exception from an activity model failed

---
 src/sorcha/activity/base_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index f4a9dd5..87794d9 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -101,7 +101,7 @@ class AbstractCometaryActivity(ABC):
         exception : Exception
             The exception with a value string to appended to the error log
         """
-        self._log_error_message(str(exception.value))
+        self._log_error_message(str(exception))
 
     def _log_error_message(self, error_msg: str) -> None:
         """Log a specific error string to the error log file
-- 
2.43.0


From 8b0dc963379f3268c1b4a34355e1f96dfb975ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 60/66] fix: complex parameters named as a pointing column (k
 with DES) were renamed for the activity model and the fading function

---
 src/sorcha/modules/DESFadingFunctionFilter.py       | 6 +++++-
 src/sorcha/modules/PPMatchPointingToObservations.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/DESFadingFunctionFilter.py b/src/sorcha/modules/DESFadingFunctionFilter.py
index 31be8ae..dcd6b90 100644
--- a/src/sorcha/modules/DESFadingFunctionFilter.py
+++ b/src/sorcha/modules/DESFadingFunctionFilter.py
@@ -41,7 +41,11 @@ def DESFadingFunctionFilter(
     verboselog = pplogger.info if verbose else lambda *a, **k: None
 
     verboselog("Calculating probabilities of detections...")
-    observations["detection_probability"] = DESDetectionProbability(observations, transient_efficiency)
+    # where the objects have columns of the same names, those of the visits end in "_pointing".
+    c_name, k_name = (f"{x}_pointing" if f"{x}_pointing" in observations.columns else x for x in ("c", "k"))
+    observations["detection_probability"] = DESDetectionProbability(
+        observations, transient_efficiency, scaling_factor_name=c_name, transition_sharpness_name=k_name
+    )
 
     verboselog("Dropping observations below detection threshold...")
     observations = PPDropObservations(observations, module_rngs, "detection_probability")
diff --git a/src/sorcha/modules/PPMatchPointingToObservations.py b/src/sorcha/modules/PPMatchPointingToObservations.py
index 645edc3..c7b170e 100644
--- a/src/sorcha/modules/PPMatchPointingToObservations.py
+++ b/src/sorcha/modules/PPMatchPointingToObservations.py
@@ -47,12 +47,15 @@ def PPMatchPointingToObservations(padain, pointfildb):
     for name in ["visit_vector", "pixels", "r_obs", "v_obs", "r_sun", "v_sun"]:
         pointing_columns_to_skip += [f"{name}_x", f"{name}_y", f"{name}_z"]
 
+    # a column of the pointing database with the name of one of the object's own columns (the DES "k" and
+    # the dust falling exponential of cometary activity, for example) must not rename the latter.
     resdf = pd.merge(
         padain,
         pointfildb.loc[:, ~pointfildb.columns.isin(pointing_columns_to_skip)],
         left_on="FieldID",
         right_on="FieldID",
         how="left",
+        suffixes=("", "_pointing"),
     )
     colour_values = resdf.optFilter.unique()
     colour_values = pd.Series(colour_values).dropna()
-- 
2.43.0


From 7b18c1089ab65e0d0959d6fbcf4830b01f5b2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 61/66] fix: lists of output columns without ObjID,
 fieldMJD_TAI or optFilter ended SQLite and HDF5 runs with an error

---
 src/sorcha/modules/PPOutput.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index c052f5d..07ec62f 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -61,7 +61,8 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
 
     # pytables doesn't like the Pandas extension dtype StringDtype
     # converting the ObjID to 'str' type fixes this
-    pp_results = pp_results.astype({"ObjID": str})
+    if "ObjID" in pp_results.columns:
+        pp_results = pp_results.astype({"ObjID": str})
 
     # this suppresses a warning when ObjIDs begin with a number
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
@@ -133,9 +134,11 @@ def PPIndexSQLDatabase(outf, tablename="sorcha_results"):
     cnx = sqlite3.connect(outf)
 
     cur = cnx.cursor()
-    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
-    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
-    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
+    # with output_columns given as a list, the table does not need to have all of these.
+    columns = [row[1] for row in cur.execute("PRAGMA table_info({})".format(tablename))]
+    for colname in ["ObjID", "fieldMJD_TAI", "optFilter"]:
+        if colname in columns:
+            cur.execute("CREATE INDEX {0} ON {1} ({0})".format(colname, tablename))
     cnx.commit()
 
 
-- 
2.43.0


From 85308618730d6c6b6e1b93ab67f664feb342bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 62/66] fix: bootstrap --force deletes only the files that are
 in the cache

It fetched each file in order to delete it: with a file missing it downloaded it first, and
with the meta kernel or the observatory codes missing (which have no URL) it stopped with an
error after deleting part of the cache.
---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..607b43f 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,11 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        # a file that is not in the cache must not be fetched in order to delete it
+        file_path = os.path.join(retriever.abspath, file_name)
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From 545c7e1d41ee5b8d5f23e1a2e29ab73ac94693b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 63/66] fix: the meta kernel is put in place only when it is
 complete

It was written while its kernels were fetched: a failed download left an incomplete meta kernel
that all later runs loaded, and runs starting at the same time could load it half written.
---
 src/sorcha/utilities/generate_meta_kernel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 67eb439..4d7e958 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -67,17 +67,25 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     # as SPICE also limits the length of the lines of a text kernel (132 characters)
     abspath = abspath.removesuffix("+' '").replace("+' '", "+'\n    '")
 
+    # get all the kernels first, and only put the complete file in its place: a meta kernel left
+    # incomplete by a failed download would be used by every later run
+    kernel_names = [
+        _build_file_name(retriever.abspath, retriever.fetch(file_name))
+        for file_name in auxconfigs.ordered_kernel_files
+    ]
+    temporary_file_path = f"{meta_kernel_file_path}.{os.getpid()}.tmp"
+
     # build a meta_kernel.txt file
-    with open(meta_kernel_file_path, "w") as meta_file:
+    with open(temporary_file_path, "w") as meta_file:
         meta_file.write("\\begindata\n\n")
         meta_file.write(f"PATH_VALUES = ('{abspath}')\n\n")
         meta_file.write("PATH_SYMBOLS = ('A')\n\n")
         meta_file.write("KERNELS_TO_LOAD=(\n")
-        for file_name in auxconfigs.ordered_kernel_files:
-            shortened_file_name = _build_file_name(retriever.abspath, retriever.fetch(file_name))
-            meta_file.write(f"    '{shortened_file_name}',\n")
+        for kernel_name in kernel_names:
+            meta_file.write(f"    '{kernel_name}',\n")
         meta_file.write(")\n\n")
         meta_file.write("\\begintext\n")
+    os.replace(temporary_file_path, meta_kernel_file_path)
 
 
 def _build_file_name(cache_dir: str, file_path: str) -> str:
-- 
2.43.0


From d3c2d6a4d04190b798195cb190dfdd67b286d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:58 +0000
Subject: [PATCH 64/66] fix: ObjIDs like NA, null or None were read as missing
 values

---
 src/sorcha/ephemeris/simulation_driver.py |  6 ++++--
 src/sorcha/readers/CSVReader.py           | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index e825671..6fa8006 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -156,8 +156,10 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    # identifiers that look like numbers (e.g. "00123") have to stay as they are
+    # identifiers that look like numbers (e.g. "00123") or like missing values (e.g. "NA")
+    # have to stay as they are
     column_types = {"ObjID": str}
+    missing_values = {name: ["nan"] for name in column_names if name != "ObjID"}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
@@ -224,7 +226,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
     verboselog("Ephemeris generated.")
     # reset to the beginning of the in-memory CSV
     output.seek(0)
-    ephemeris_df = pd.read_csv(output, dtype=column_types)
+    ephemeris_df = pd.read_csv(output, dtype=column_types, keep_default_na=False, na_values=missing_values)
 
     # if the user has defined an output file name for the ephemeris results, write out to that file
     if ephemeris_csv_filename:
diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 153232c..ff25e27 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -171,7 +171,8 @@ class CSVDataReader(ObjectDataReader):
     def _read_csv(self, **kwargs):
         """Calls pandas.read_csv() on the file. Rows with more entries than there are
         column headings are refused. By default pandas would take the first entries of
-        the rows as the index and shift all others to the wrong columns.
+        the rows as the index and shift all others to the wrong columns. The ObjIDs are
+        taken as they are written.
 
         Parameters
         ----------
@@ -186,7 +187,9 @@ class CSVDataReader(ObjectDataReader):
         with warnings.catch_warnings():
             warnings.simplefilter("error", category=pd.errors.ParserWarning)
             try:
-                return pd.read_csv(self.filename, index_col=False, **kwargs)
+                # pandas would take some ObjIDs for numbers and some (NA, None, null) for missing values. It
+                # looks for the latter also in the results of converters, so they are marked while being read.
+                table = pd.read_csv(self.filename, index_col=False, converters={"ObjID": "={}".format}, **kwargs)
             except (pd.errors.ParserWarning, pd.errors.ParserError) as current_exc:
                 pplogger = logging.getLogger(__name__)
                 error_str = (
@@ -196,6 +199,11 @@ class CSVDataReader(ObjectDataReader):
                 pplogger.error(error_str)
                 sys.exit(error_str)
 
+        if "ObjID" in table.columns:
+            object_ids = table["ObjID"].astype(str).str[1:]
+            table["ObjID"] = object_ids.where(object_ids != "")
+        return table
+
     def _find_row_lines(self):
         """Finds the line number of each data row. Blank lines are not rows, so
         the n-th row does not have to be on the n-th line after the header.
@@ -254,14 +262,12 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
-                dtype={"ObjID": str},
             )
         else:
             res_df = self._read_csv(
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
-                dtype={"ObjID": str},
             )
 
         return res_df
@@ -275,14 +281,12 @@ class CSVDataReader(ObjectDataReader):
             self.obj_id_table = self._read_csv(
                 sep="\\s+",
                 usecols=["ObjID"],
-                dtype={"ObjID": str},
                 skiprows=self.header_row,
             )
         else:
             self.obj_id_table = self._read_csv(
                 delimiter=",",
                 usecols=["ObjID"],
-                dtype={"ObjID": str},
                 skiprows=self.header_row,
             )
 
@@ -317,13 +321,11 @@ class CSVDataReader(ObjectDataReader):
                 res_df = self._read_csv(
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
-                    dtype={"ObjID": str},
                 )
             else:
                 res_df = self._read_csv(
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
-                    dtype={"ObjID": str},
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From cf3ba761f2ce7c7f5388a28126811d6f60e94778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 65/66] fix: an SNR limit is refused for DES, which has no SNR

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index a55392e..12cb69d 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -965,6 +965,10 @@ class expertConfigs:
                 sys.exit(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
+            if self.snr_limit_on:
+                # the uncertainties, and with them the SNR, are not calculated for DES
+                logging.error("ERROR: DES simulation does not support an SNR limit. Use mag_limit instead.")
+                sys.exit("ERROR: DES simulation does not support an SNR limit. Use mag_limit instead.")
         elif self.camera_model == "visits_footprint":
             logging.warning(
                 "WARNING: fov camera model 'visits_footprint' does not support vignetting. This is off by default"
-- 
2.43.0


From e93a10592de7546867f8f70e8f6c32dd443553e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 66/66] fix: basic output columns that do not exist (for DES)
 are refused with a message

---
 src/sorcha/modules/PPOutput.py | 40 +++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 07ec62f..30aa3b8 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -178,25 +178,29 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
     )
 
     if sconfigs.output.output_columns == "basic":
-        observations = observations_in.copy()[
-            [
-                "ObjID",
-                "fieldMJD_TAI",
-                "fieldRA_deg",
-                "fieldDec_deg",
-                "RA_deg",
-                "Dec_deg",
-                "astrometricSigma_deg",
-                "optFilter",
-                "trailedSourceMag",
-                "trailedSourceMagSigma",
-                "fiveSigmaDepth_mag",
-                "phase_deg",
-                "Range_LTC_km",
-                "RangeRate_LTC_km_s",
-                "Obj_Sun_LTC_km",
-            ]
+        basic_columns = [
+            "ObjID",
+            "fieldMJD_TAI",
+            "fieldRA_deg",
+            "fieldDec_deg",
+            "RA_deg",
+            "Dec_deg",
+            "astrometricSigma_deg",
+            "optFilter",
+            "trailedSourceMag",
+            "trailedSourceMagSigma",
+            "fiveSigmaDepth_mag",
+            "phase_deg",
+            "Range_LTC_km",
+            "RangeRate_LTC_km_s",
+            "Obj_Sun_LTC_km",
         ]
+        missing_columns = [col for col in basic_columns if col not in observations_in.columns]
+        if missing_columns:  # e.g. there are no uncertainties for DES
+            error_str = f"ERROR: output_columns = basic is not possible: there is no {', '.join(missing_columns)}."
+            pplogger.error(error_str)
+            sys.exit(error_str)
+        observations = observations_in.copy()[basic_columns]
 
         # if linking is on and unlinked objects are NOT dropped, add the object_linked column to the output
         if sconfigs.linkingfilter.ssp_linking_on and not sconfigs.linkingfilter.drop_unlinked:
-- 
2.43.0

