From f45377ff2cb31c69b67fc98be4660fdaebd3e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 01/36] fix: average the K heaviest reference points instead of
 an empty range

---
 src/knn/knn_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..e529252 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -354,8 +354,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      size_t k)
 {
   k = std::min(k, rpToWeight.size());
-  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints(k);
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From e97303c0746f0430ec23e33b0df94e5d1ecb510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 02/36] fix: a level that cannot be triangulated no longer
 disables the levels after it

---
 src/knn/knn_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index e529252..fbb2156 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -54,8 +54,8 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       std::vector<Triangle> triangles = TriangulateVertices(vertices, maxedge);
       if (triangles.empty())
       {
-        // triangulation failed!
-        return levelTriangles;
+        // triangulation of this level failed, the other levels do not depend on it
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0


From ad1cbf8c88ded26e25ef323545a3fc718a1df0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 03/36] fix: axis-aligned segments that cross are reported as
 intersecting

---
 src/geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.cpp b/src/geometry.cpp
index 259ff3c..f67315d 100644
--- a/src/geometry.cpp
+++ b/src/geometry.cpp
@@ -145,7 +145,7 @@ bool CheckIntersection(double ax, double ay,
   {
     if (a > b) std::swap(a, b);
     if (c > d) std::swap(c, d);
-    return std::max(a,c) < std::min(b,d);
+    return std::max(a,c) <= std::min(b,d);
   };
   return boundBoxCheck(ax, bx, cx, dx) &&
          boundBoxCheck(ay, by, cy, dy) &&
-- 
2.43.0


From 94ae240e2781f0e807813ba6a107c84db4106a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 04/36] fix: altitude uses the horizontal distance to each
 transmitter

---
 src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index f55ee26..5bff23c 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -104,7 +104,7 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
     for (const auto& msr : radioMsrs)
     {
       Transmitter<XYZPoint> tx = level.transmitter(msr.id);
-      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2 - pow((y - tx.point.y), 2)));
+      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2) - pow((y - tx.point.y), 2));
       if (!std::isnan(deltaZ))
       {
         nanFlag = false;
-- 
2.43.0


From 0b3b8631042a3373276b26ce94c543d877027efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 05/36] fix: reducing a very large angle no longer hangs

---
 src/sensor_fusion/complementary_filter.cpp                     | 3 +++
 .../complementary_filter/src/complementary_filter.cpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index b0f74c5..95e86a0 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -4,6 +4,7 @@
  *
  */
 
+#include <cmath>
 #include <navigine/navigation-core/navigation_input.h>
 #include <navigine/navigation-core/navigation_settings.h>
 #include "complementary_filter.h"
@@ -17,6 +18,8 @@ static const double LPF_TIME_CONSTANT_SEC   = 1.0;
 
 double to_minus_Pi_Pi(double x)
 {
+  if (std::fabs(x) > 4 * M_PI) // subtracting one turn at a time may never end
+    x = std::fmod(x, 2 * M_PI);
   while ( x >= M_PI ) x -= 2 * M_PI;
   while ( x < -M_PI ) x += 2 * M_PI;
   return x;
diff --git a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
index 3fc0d15..19a873b 100644
--- a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
+++ b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include "complementary_filter.h"
 
 namespace navigine {
@@ -9,6 +10,8 @@ static const double DOUBLE_EPSILON          = 1e-8;
 
 double to_minus_Pi_Pi(double x)
 {
+  if (std::fabs(x) > 4 * M_PI) // subtracting one turn at a time may never end
+    x = std::fmod(x, 2 * M_PI);
   while ( x >= M_PI ) x -= 2 * M_PI;
   while ( x < -M_PI ) x += 2 * M_PI;
   return x;
-- 
2.43.0


From e6e93776b187a2aa205e6a5f1c47b79439a977b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 06/36] fix: nothing read before the first sensor, NMEA or
 radio message is left uninitialised

---
 include/navigine/navigation-core/navigation_input.h | 12 ++++++------
 src/measurements/measurement_preprocessor.h         |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/navigine/navigation-core/navigation_input.h b/include/navigine/navigation-core/navigation_input.h
index 3859486..0991d8f 100644
--- a/include/navigine/navigation-core/navigation_input.h
+++ b/include/navigine/navigation-core/navigation_input.h
@@ -21,8 +21,8 @@ namespace navigation_core {
 template <typename MeasurementData>
 struct MeasurementDataWithTimeStamp
 {
-  MeasurementData data;
-  long long ts;
+  MeasurementData data = MeasurementData();
+  long long ts = 0;
 };
 
 struct RadioMeasurementData
@@ -35,7 +35,7 @@ struct RadioMeasurementData
     WIFI_RTT
   };
 
-  Type type;
+  Type type = Type::WIFI;
   TransmitterId id;
   double rssi = 0;
   double power = 0;
@@ -54,14 +54,14 @@ struct SensorMeasurementData
     ORIENTATION
   };
 
-  Type       type;
+  Type       type = Type::ACCELEROMETER;
   Vector3d   values;
 };
 
 struct NmeaMeasurementData
 {
-  int sentenceNumber;
-  int satellitesNumber;
+  int sentenceNumber = 0;
+  int satellitesNumber = 0;
 };
 
 using RadioMeasurementsData = std::vector<RadioMeasurementData>;
diff --git a/src/measurements/measurement_preprocessor.h b/src/measurements/measurement_preprocessor.h
index bdb58f6..145238b 100644
--- a/src/measurements/measurement_preprocessor.h
+++ b/src/measurements/measurement_preprocessor.h
@@ -83,7 +83,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     const bool mUseWifi;
     const bool mUseBle;
     const bool mIsTracking;
-    long long mLastSignalTs;
+    long long mLastSignalTs = 0;
 
     RadioMeasurementBuffer mRadiosBuffer;
     long long mCurrentTs;
-- 
2.43.0


From 63d8b8c739e89015cf188caaefda041b9092c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 07/36] fix: outputs without a position and fresh navigation
 states carry defined values

---
 include/navigine/navigation-core/navigation_output.h | 8 ++++----
 include/navigine/navigation-core/navigation_state.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/navigine/navigation-core/navigation_output.h b/include/navigine/navigation-core/navigation_output.h
index 17edabe..d67bfee 100644
--- a/include/navigine/navigation-core/navigation_output.h
+++ b/include/navigine/navigation-core/navigation_output.h
@@ -24,15 +24,15 @@ enum class Provider { GNSS, INDOOR, FUSED, NONE };
 
 struct NavigationOutput
 {
-  NavigationStatus status;
+  NavigationStatus status = NavigationStatus::NO_SOLUTION;
 
   LevelId posLevel;       // Level identifier
   double posLatitude = 0.0;
   double posLongitude = 0.0;
   double posAltitude = 0.0;
-  double posR;           // Output radius (meters)
-  double posOrientation; // Output orientation in radians (clockwise)
-  Provider provider;
+  double posR = 0.0;           // Output radius (meters)
+  double posOrientation = 0.0; // Output orientation in radians (clockwise)
+  Provider provider = Provider::NONE;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/include/navigine/navigation-core/navigation_state.h b/include/navigine/navigation-core/navigation_state.h
index ab90ba2..8e7452b 100644
--- a/include/navigine/navigation-core/navigation_state.h
+++ b/include/navigine/navigation-core/navigation_state.h
@@ -60,9 +60,9 @@ class NavigationState
     RadioMeasurementsData        mMeasurements;
     std::vector<XYParticle>  mLikelihoodMapPoints;
     std::vector<double>      mLikelihoodMapWeights;
-    double                   mHeading;
-    double                   mStepLen;
-    int                      mStepCounter;
+    double                   mHeading     = 0.0;
+    double                   mStepLen     = 0.0;
+    int                      mStepCounter = 0;
     XYPoint                  mIndoorPosition;
     XYPoint                  mOutdoorPosition;
 };
-- 
2.43.0


From bbeacc0300c5b3c217b11375cedd30c27cfe9a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 08/36] fix: an empty sigma filter window no longer pops from
 an empty buffer

---
 src/position_estimator/position_estimator_outdoor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index aba6627..137e873 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -11,6 +11,8 @@ namespace navigation_core {
 
 bool SigmaFilter::add(const XYPoint& point)
 {
+  if (mSigmaWindow == 0) // nothing to compare with
+    return true;
   bool pntValid = false;
   if (mGNSSbuffer.size() == mSigmaWindow) {
     double sumX = 0;
-- 
2.43.0


From be32eb9c78439d73b3501122f878943027a1a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 09/36] fix: a GNSS fix less accurate than the accepted maximum
 is rejected

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 137e873..e63218e 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -112,6 +112,9 @@ Position PositionEstimatorOutdoor::calculatePosition(
         return mLastGpsPosition;
   }
 
+  if (gpsPos.deviation > mMaxGpsDeviation)
+    return Position(); //TODO error code: gps is not accurate enough!
+
   //TODO find map closest to previous position (at least check if inside)!!!!
   for (const Level& level: mLevelIndex->levels())
   {
-- 
2.43.0


From 6c8ae1698a618e87ac64c04fbd77ad880215b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 10/36] fix: an old GNSS fix is not taken for a new one in
 every later epoch

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index e63218e..338b955 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -66,7 +66,8 @@ PositionEstimatorOutdoor::PositionEstimatorOutdoor(
 GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const SensorMeasurement& sensorMsr)
 {
 
-  if (sensorMsr.data.type == SensorMeasurementData::Type::LOCATION)
+  // a fix is new only in the epoch it was received in
+  if (sensorMsr.data.type == SensorMeasurementData::Type::LOCATION && sensorMsr.ts == ts)
   {
     double lat = sensorMsr.data.values.x;
     double lng = sensorMsr.data.values.y;
-- 
2.43.0


From c0d57d6f347d447067c0107bad99ac45d550f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 11/36] fix: KNN without any matching reference point reports
 no solution instead of the map origin

---
 src/knn/knn_utils.cpp                             | 10 +++++-----
 src/knn/knn_utils.h                               |  5 +++--
 src/position_estimator/position_estimator_knn.cpp |  9 +++++++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index fbb2156..e748b28 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -307,7 +307,7 @@ static double getTriangleWeight(const RefPointsTriangle& triangle,
   return w1 + w2 + w3;
 }
 
-XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
+boost::optional<XYPoint> calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
                                const Radiomap& radiomap,
                                const std::map<ReferencePointId, double>& rpWeights)
 {
@@ -328,7 +328,7 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
   if (norm < std::numeric_limits<double>::epsilon())
   {
     //TODO send error code
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   if (!radiomap.hasReferencePoint(maxWeightTriangle->rp1) ||
@@ -336,7 +336,7 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
       !radiomap.hasReferencePoint(maxWeightTriangle->rp3))
   {
     //TODO send error code
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   ReferencePoint<XYPoint> rp1 = radiomap.getReferencePoint(maxWeightTriangle->rp1);
@@ -349,7 +349,7 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
   return XYPoint(x, y);
 }
 
-XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
+boost::optional<XYPoint> calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      const std::map<ReferencePointId, double>& rpToWeight,
                                      size_t k)
 {
@@ -380,7 +380,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
   if (norm < std::numeric_limits<double>::epsilon())
   {
     //TODO check if norm can be zero and process error
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   x /= norm;
diff --git a/src/knn/knn_utils.h b/src/knn/knn_utils.h
index 89c4c22..805cabd 100644
--- a/src/knn/knn_utils.h
+++ b/src/knn/knn_utils.h
@@ -13,6 +13,7 @@
 #include <navigine/navigation-core/level_collector.h>
 
 #include <set>
+#include <boost/optional.hpp>
 
 #include "../triangulation.h"
 
@@ -48,11 +49,11 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
   const RadioMeasurementsData& msr,
   bool useDiffMode = true);
 
-XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
+boost::optional<XYPoint> calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
                                const Radiomap& rps,
                                const std::map<ReferencePointId, double>& rpToWeight);
 
-XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
+boost::optional<XYPoint> calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      const std::map<ReferencePointId, double>& rpToWeight,
                                      size_t k);
 
diff --git a/src/position_estimator/position_estimator_knn.cpp b/src/position_estimator/position_estimator_knn.cpp
index d60a956..e2fa811 100644
--- a/src/position_estimator/position_estimator_knn.cpp
+++ b/src/position_estimator/position_estimator_knn.cpp
@@ -69,7 +69,7 @@ Position PositionEstimatorKnn::calculatePosition(
   debugRefPointWeights = weights;
 #endif
 
-  XYPoint p = XYPoint(0.0, 0.0);
+  boost::optional<XYPoint> p;
   if (mUseTriangles)
   {
     if (mLevelTriangles.find(level.id()) == mLevelTriangles.end())
@@ -92,9 +92,14 @@ Position PositionEstimatorKnn::calculatePosition(
     p = calcKHeaviestRefPointsAverage(refPointsMap, rpToWeight, mK);
   }
 
+  if (!p.is_initialized())
+  {
+    retStatus = NavigationStatus::NO_SOLUTION;
+    return mPosition;
+  }
   bool isEmpty = false;
   double precision = 1.0; //TO FIX: calculate position accuracy
-  mPosition = Position(p.x, p.y, level.id(), precision, ts, isEmpty, Provider::INDOOR, 0.0);
+  mPosition = Position(p->x, p->y, level.id(), precision, ts, isEmpty, Provider::INDOOR, 0.0);
   
   return mPosition;
 }
-- 
2.43.0


From ea52d61206fd9162694e189cfea5a107ff2deb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 12/36] fix: two positions with the same time no longer poison
 the least squares smoother with NaN

---
 src/position_postprocessor/polynomial_fit.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index c65eb33..161978b 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -24,14 +24,21 @@ void PolynomialFit::addSequencePoint(double x, double y)
     if (mY.empty())
         mCoeff.assign(mPower + 1, 0.);
 
-    if (mY.empty() || mY.back() != y)
+    if (!mX.empty() && mX.back() == x)
+    {
+        mY.back() = y; // two values at one moment make the system singular, keep the latest
+    }
+    else if (mY.empty() || mY.back() != y)
     {
         mY.push_back(y);
         mX.push_back(x);
         removeOldPoints();
-        if ((int)mY.size() > mPower)
-            getLeastSquaresCoeff();
     }
+    else
+        return;
+
+    if ((int)mY.size() > mPower)
+        getLeastSquaresCoeff();
 }
 
 void PolynomialFit::removeOldPoints()
-- 
2.43.0


From f64db1835d449a3e8afca72de123ef622e4f522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 13/36] fix: a trilateration result does not depend on the
 previous results of the object

The weighted coordinates were added to the ones of the previous call.
---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e6d2ede..500f04c 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -173,6 +173,7 @@ void Trilateration::printXyToFile( char* filename ) const
 
 int Trilateration::calculateTrilaterationCoordinates()
 {
+  mXY.assign( 2, 0.0 );
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-- 
2.43.0


From f796a20439ed738a4150ba7766a7c8c13f7ca730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 14/36] fix: the average distance of duplicate trilateration
 measurements is used

The average was calculated but the distance of whichever duplicate was sorted
first was used, so the result depended on the order of the measurements.
---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 500f04c..891ad14 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -265,6 +265,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     distance /= (std::max)(nOfMeasFromSameAp, 1);
      
     itBeaconMeas->setRssi( rssi );
+    itBeaconMeas->setDistance( distance );
   }
 
   if (beaconMeas.size() < 3)
-- 
2.43.0


From 881a21ad27a83711c56ee5328bef2df22d5bd04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 15/36] fix: Eddystone measurements of a log are no longer read
 as WiFi

Type 204 was accepted but missing in the table of types, so the first entry was used.
---
 tools/verification/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 73ebe23..2a8da4b 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -22,6 +22,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(navigine::navigation_core::RadioMeasurementData::Ty
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI, 201},
   {navigine::navigation_core::RadioMeasurementData::Type::BEACON, 203},
   {navigine::navigation_core::RadioMeasurementData::Type::BLUETOOTH, 202},
+  {navigine::navigation_core::RadioMeasurementData::Type::EDDYSTONE, 204},
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI_RTT, 205}
 })
 
-- 
2.43.0


From 18e7da8b180cb1f460d87577beb331a1d4141eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 16/36] fix: the documented settings Use_altitude,
 Fuse_gps_border and K_neighbors are read

They were reported as unknown and the default values were used.
---
 tools/verification/helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 2a8da4b..f0fe565 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -190,7 +190,7 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_uniform_sampling")
         j.at(key).get_to(commonSettings.useUniformSampling);
 
-      else if (key == "K")
+      else if (key == "K" || key == "K_neighbors")
         j.at(key).get_to(commonSettings.kNeighbors);
       else if (key == "Use_triangles")
         j.at(key).get_to(commonSettings.useTriangles);
@@ -225,6 +225,8 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_ab_filter")
         j.at(key).get_to(commonSettings.useAbFilter);
 
+      else if (key == "Use_altitude")
+        j.at(key).get_to(commonSettings.useAltitude);
       else if (key == "Use_gps")
         j.at(key).get_to(commonSettings.useGps);
       else if (key == "Use_instant_gps_position")
@@ -250,7 +252,7 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
         j.at(key).get_to(commonSettings.minGpsDeviation);
       else if (key == "Maximum_to_accept_gps_measurement")
         j.at(key).get_to(commonSettings.maxGpsDeviation);
-      else if (key == "Fuse_gps_border_m")
+      else if (key == "Fuse_gps_border" || key == "Fuse_gps_border_m")
         j.at(key).get_to(commonSettings.fuseGpsBorderM);
       else if (key == "Position_old_for_fusing_sec")
         j.at(key).get_to(commonSettings.positionIsTooOldSec);
-- 
2.43.0


From e707abd8ea80cc44997a08edc7c8afe2bb27d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 17/36] fix: one unreadable setting no longer discards the
 settings after it

---
 tools/verification/helpers.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index f0fe565..d0ea670 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -116,9 +116,9 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
   {
     keys.push_back(el.key());
   }
-  try 
+  for (const auto& key : keys)
   {
-    for (const auto& key : keys)
+    try 
     {
       if (key == "Use_algorithm")
         j.at(key).get_to(commonSettings.useAlgorithm);
@@ -281,11 +281,11 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else
         std::cerr << "unknown setting: " << key << '\n';
     }
-  } 
-  catch (json::exception& e) 
-  {
-    std::cerr << "parsing json " << j << " following exception occurred" << '\n'
-              << "message: " << e.what() << '\n';
+    catch (json::exception& e) 
+    {
+      std::cerr << "parsing json " << j << " following exception occurred" << '\n'
+                << "message: " << e.what() << '\n';
+    }
   }
 }
   
@@ -296,9 +296,9 @@ static void from_json(const nlohmann::json& j, LevelSettings& levelSettings)
   {
     keys.push_back(el.key());
   }
-  try
+  for (const auto& key : keys)
   {
-    for (const auto& key : keys)
+    try
     {
       if (key == "A")
         j.at(key).get_to(levelSettings.normalModeA);
@@ -307,11 +307,11 @@ static void from_json(const nlohmann::json& j, LevelSettings& levelSettings)
       else
         std::cerr << "unknown setting: " << key << '\n';
     }
-  }
-  catch (json::exception& e) 
-  {
-    std::cerr << "parsing json " << j << " following exception occurred" << '\n'
-              << "message: " << e.what() << '\n';
+    catch (json::exception& e) 
+    {
+      std::cerr << "parsing json " << j << " following exception occurred" << '\n'
+                << "message: " << e.what() << '\n';
+    }
   }
 }
 } // nlohmann
-- 
2.43.0


From 2efe121fc6d83e79dff6791aa6f97507759a7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 18/36] fix: an unknown entry of a log is skipped instead of
 read as a WiFi measurement

It was reported, and an empty WiFi measurement with its time was navigated on.
---
 tools/verification/helpers.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index d0ea670..d708233 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -94,6 +94,11 @@ static void from_json(const nlohmann::json& j, NmeaMeasurementData& nmeaMsr)
   j.at("num_sats").get_to(nmeaMsr.satellitesNumber);
 }
 
+static bool isKnownMeasurementType(int msrType)
+{
+  return (msrType >= 101 && msrType <= 106) || (msrType >= 201 && msrType <= 205) || msrType == 300;
+}
+
 static void from_json(const nlohmann::json& j, Measurement& msr)
 {
   j.at("timestamp").get_to(msr.ts);
@@ -105,8 +110,6 @@ static void from_json(const nlohmann::json& j, Measurement& msr)
     msr.data = j.get<RadioMeasurementData>();
   else if (msrType == 300)
     msr.data = j.get<NmeaMeasurementData>();
-  else
-    std::cerr << "Unknown measurement." << std::endl;
 }
 
 static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
@@ -328,6 +331,11 @@ std::vector<Measurement> GetNavMessages(const std::string& jsonFile)
   while (std::getline(infile, line))
   {
     auto j = nlohmann::json::parse(line);
+    if (!nlohmann::isKnownMeasurementType(j.at("type").get<int>()))
+    {
+      std::cerr << "Unknown measurement." << std::endl;
+      continue;
+    }
     inputs.emplace_back(j.get<Measurement>());
   }
   return inputs;
-- 
2.43.0


From abf98e1c60b270174e5e1c920ddce1e905d0faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 19/36] fix: a point shared by lines of the route graph becomes
 one vertex

A vertex already added as the neighbour of another one was added again, so
lines that meet in it were not connected.
---
 tools/verification/helpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index d708233..7fca790 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -447,8 +447,9 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
     int v1 = it.first;
     std::set<int> adjacentVertexes = it.second;
     GeoPoint p1 = vertexMap[v1];
-    Graph<GeoPoint>::Vertex vertex1 = graph.addVertex(p1);
-    addedVertices.insert({v1, vertex1});
+    if (addedVertices.find(v1) == addedVertices.end())
+      addedVertices.insert({v1, graph.addVertex(p1)});
+    Graph<GeoPoint>::Vertex vertex1 = addedVertices[v1];
     for (int v2: adjacentVertexes)
     {
       if (addedVertices.find(v2) == addedVertices.end())
-- 
2.43.0


From 64e24d82f518722d145939149c969526feea41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 20/36] fix: KNN without difference mode compares signals of
 the same sign

The radio map stores the mean signal in dBm as it is measured (docs/KNN.md, and
the difference mode subtracts the two), but the sum was used as the penalty, so
the most similar reference point got the smallest weight.
---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index e748b28..a13e076 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -254,7 +254,7 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
       {
         double apW = trWeights[it1->txId];
         rpNormalize[rpId] += apW;
-        double weight = std::max(fabs(it1->rssiDatabase + it1->rssiMeasured) * apW, MIN_RP_WEIGHT);
+        double weight = std::max(fabs(it1->rssiDatabase - it1->rssiMeasured) * apW, MIN_RP_WEIGHT);
         rpWeights[rpId] += weight;
       }
     }
-- 
2.43.0


From 019cbb6a6801bf4cb612984bb77dbf7937df2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 21/36] fix: a measured distance of zero gives a position
 instead of NaN

---
 .../trilateteration/src/trilateration.cpp                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 891ad14..fa68b19 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -17,6 +17,8 @@ using namespace std;
 
 
 
+static const double MIN_DISTANCE = 1e-6; // a distance of zero has a finite weight
+
 Trilateration::Trilateration()
 {
   mXY.assign( 2, 0.0 );
@@ -177,7 +179,7 @@ int Trilateration::calculateTrilaterationCoordinates()
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-    normalizeCoefficient += 1.0 / fabs( mBeaconMeas[ i ].getDistance() );
+    normalizeCoefficient += 1.0 / std::max( fabs( mBeaconMeas[ i ].getDistance() ), MIN_DISTANCE );
 
   vector <double> weight( mBeaconMeas.size(), 0.0 );
 
@@ -190,8 +192,8 @@ int Trilateration::calculateTrilaterationCoordinates()
       return ERROR_IN_TRILATER;
     }
     // calculate probability of being at beacons x,y coordinates
-    weight[ i ] += 1.0 / (fabs( mBeaconMeas[ i ].getDistance() *
-      normalizeCoefficient ));
+    weight[ i ] += 1.0 / (std::max( fabs( mBeaconMeas[ i ].getDistance() ), MIN_DISTANCE ) *
+      normalizeCoefficient);
 
     double beaconX = 0, beaconY = 0.;
     beaconX = mBeaconMeas[ i ].getBeaconPtr()->getX();
-- 
2.43.0


From 12fa3e6353846edbb67f07cbbf14eb971ef387c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 22/36] fix: a rejected satellite fix seen again in another
 epoch is not compared with itself

---
 src/position_estimator/position_estimator_outdoor.cpp | 10 +++++++---
 src/position_estimator/position_estimator_outdoor.h   |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 338b955..7f2ccdb 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -135,10 +135,14 @@ Position PositionEstimatorOutdoor::calculatePosition(
       outPos.provider   = Provider::GNSS;
       
       bool isValid = true;
-      if (outPos.ts != mLastGpsPosition.ts)
+      if (mUseSigmaFilter)
       {
-        if (mUseSigmaFilter && !mSigmaFilter.add(point))
-          isValid = false;
+        if (outPos.ts != mLastFilteredTs) // one fix is filtered once, however many epochs it is seen in
+        {
+          mIsLastFilteredValid = mSigmaFilter.add(point);
+          mLastFilteredTs = outPos.ts;
+        }
+        isValid = mIsLastFilteredValid;
       }
 
       if (!isValid || (totalNumSats != 0 && totalNumSats < mMinNumSats))
diff --git a/src/position_estimator/position_estimator_outdoor.h b/src/position_estimator/position_estimator_outdoor.h
index 3461cb7..265bcde 100644
--- a/src/position_estimator/position_estimator_outdoor.h
+++ b/src/position_estimator/position_estimator_outdoor.h
@@ -82,6 +82,8 @@ public:
 
     std::shared_ptr<LevelCollector> mLevelIndex;
     SigmaFilter mSigmaFilter;
+    long long mLastFilteredTs = -1;
+    bool mIsLastFilteredValid = false;
     const double mGpsValidTimeWindowSec;
     const bool mUseGpsOutsideMap;
     const bool mUseSigmaFilter;
-- 
2.43.0


From 7e64432dbcca77374f82ab5e0943245f748de82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 23/36] fix: indoor and satellite positions of different levels
 are combined in one coordinate system

---
 src/navigation_client_impl.cpp                |  2 +-
 .../position_postprocessor.cpp                | 29 +++++++++++++++----
 .../position_postprocessor.h                  |  7 ++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index aee6263..b318d5a 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -22,7 +22,7 @@ NavigationClientImpl::NavigationClientImpl(
   , mPositionEstimatorIndoor(createPostitionEstimator(levelCollector, navProps))
   , mMsrPreprocessor(std::make_unique<MeasurementsPreprocessor>(levelCollector, navProps))
   , mPositionEstimatorOutdoor(std::make_unique<PositionEstimatorOutdoor>(levelCollector, navProps))
-  , mPositionPostprocessor(std::make_unique<PositionPostprocessor>(navProps))
+  , mPositionPostprocessor(std::make_unique<PositionPostprocessor>(levelCollector, navProps))
   , mSensorFusion(std::make_unique<SensorFusion>(navProps))
   , mFlagIndoorPos(false)
   , mPrevFusedPosHeading(boost::none)
diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 0fc7a76..12d469b 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -7,8 +7,11 @@
 namespace navigine {
 namespace navigation_core {
 
-PositionPostprocessor::PositionPostprocessor(const NavigationSettings& navProps)
-  : mUseSmoothing(navProps.commonSettings.useSmoothing)
+PositionPostprocessor::PositionPostprocessor(
+  const std::shared_ptr<LevelCollector>& levelCollector,
+  const NavigationSettings& navProps)
+  : mLevelIndex(levelCollector)
+  , mUseSmoothing(navProps.commonSettings.useSmoothing)
   , mUseStops(navProps.commonSettings.useStops)
   , mUseInstantGpsPosition(navProps.commonSettings.useInstantGpsPosition)
   , mUseGps(navProps.commonSettings.useGps)
@@ -68,6 +71,21 @@ void PositionPostprocessor::fillIndoorOutdoorPositionStates(
   }
 }
 
+// the same place in the local coordinates of another level
+Position PositionPostprocessor::convertToLevel(const Position& position, const LevelId& levelId) const
+{
+  if (position.levelId == levelId || !mLevelIndex->hasLevel(position.levelId) || !mLevelIndex->hasLevel(levelId))
+    return position;
+
+  const GeoPoint geoPoint = localToGps(XYPoint(position.x, position.y), mLevelIndex->level(position.levelId).bindingPoint());
+  const XYPoint point = gpsToLocal(geoPoint, mLevelIndex->level(levelId).bindingPoint());
+  Position converted = position;
+  converted.levelId = levelId;
+  converted.x = point.x;
+  converted.y = point.y;
+  return converted;
+}
+
 Position PositionPostprocessor::fusePositions(
   long long curTs, 
   const Position& indoorPos, 
@@ -101,15 +119,16 @@ Position PositionPostprocessor::fusePositions(
   double indoorDev = mMotionSpeed * indoorPositionDelay + mIndoorDev;
   double outdoorDev = mMotionSpeed * outdoorPositionDelay + mOutdoorDev;
 
-  double positionsDist = GetDist(mIndoorPos.x, mIndoorPos.y, mOutdoorPos.x, mOutdoorPos.y);
+  const Position outdoorOnLevel = convertToLevel(mOutdoorPos, mIndoorPos.levelId);
+  double positionsDist = GetDist(mIndoorPos.x, mIndoorPos.y, outdoorOnLevel.x, outdoorOnLevel.y);
   double accuracyDist = mIndoorPos.deviationM + mOutdoorPos.deviationM + mFuseGpsBorderM;
 
   if (mFuseGps && (accuracyDist > positionsDist))
   {
     Position fusedPos = mIndoorPos;
     fusedPos.ts = std::max(mIndoorPos.ts, mOutdoorPos.ts);
-    fusedPos.x = (mIndoorPos.x * outdoorDev + mOutdoorPos.x * indoorDev) / (outdoorDev + indoorDev);
-    fusedPos.y = (mIndoorPos.y * outdoorDev + mOutdoorPos.y * indoorDev) / (outdoorDev + indoorDev);
+    fusedPos.x = (mIndoorPos.x * outdoorDev + outdoorOnLevel.x * indoorDev) / (outdoorDev + indoorDev);
+    fusedPos.y = (mIndoorPos.y * outdoorDev + outdoorOnLevel.y * indoorDev) / (outdoorDev + indoorDev);
     fusedPos.deviationM = std::min(indoorDev, outdoorDev);
     fusedPos.provider = Provider::FUSED;
     return fusedPos;
diff --git a/src/position_postprocessor/position_postprocessor.h b/src/position_postprocessor/position_postprocessor.h
index da24183..6d81bac 100644
--- a/src/position_postprocessor/position_postprocessor.h
+++ b/src/position_postprocessor/position_postprocessor.h
@@ -4,6 +4,7 @@
 #include <navigine/navigation-core/motion_info.h>
 #include <navigine/navigation-core/navigation_settings.h>
 #include <navigine/navigation-core/level.h>
+#include <navigine/navigation-core/level_collector.h>
 
 #include "../position.h"
 #include "navigation_time_smoother.h"
@@ -16,7 +17,9 @@ class PositionPostprocessor
 {
   public:
     ~PositionPostprocessor();
-    PositionPostprocessor(const NavigationSettings& navProps);
+    PositionPostprocessor(
+      const std::shared_ptr<LevelCollector>& levelCollector,
+      const NavigationSettings& navProps);
 
     Position getProcessedPosition(const Position& fusedPos,
       long long ts, const MotionInfo& motionInfo,
@@ -28,8 +31,10 @@ class PositionPostprocessor
     const Position getOutdoorPosition() { return mOutdoorPos; }
 
   private:
+    Position convertToLevel(const Position& position, const LevelId& levelId) const;
     bool isInsideMap(const Position& pos, const Level& level);
 
+    std::shared_ptr<LevelCollector> mLevelIndex;
     const bool mUseSmoothing;
     const bool mUseStops;
     const bool mUseInstantGpsPosition;
-- 
2.43.0


From f89c04cba0fcc8be6736eaad46191e2db81f882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 24/36] fix: the radius of a satellite or fused position is its
 own, not that of the last indoor position

---
 src/position_postprocessor/position_postprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 12d469b..6489c8c 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -228,7 +228,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   {
     mLastOutPosition = result;
     mLastOutPosition.ts = ts;
-    mLastOutPosition.deviationM = mIndoorPos.deviationM;
+    mLastOutPosition.deviationM = fusedPosition.deviationM;
   }
 
 
-- 
2.43.0


From b8bdab6577c42c43becc27377e03a7ea28b9689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 25/36] fix: the first position is reported although the user
 stands still

---
 src/position_postprocessor/position_postprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 6489c8c..1cfde0d 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -211,7 +211,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   bool newPositionIsNotTooFar = dist < mStopsDistThresholdM;
 
   mLastOutPosition.ts = ts;
-  if (mUseStops && lastStepWasTooLongAgo)
+  if (mUseStops && lastStepWasTooLongAgo && !mLastOutPosition.isEmpty)
   {
     if ((ts - mLastExtractionTs > mStopUpdateTimeMs) && newPositionIsNotTooFar)
     {
-- 
2.43.0


From d5ba7df2091916aad5da9fce0f86adad89bdcea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 26/36] fix: a position held at a stop stays where it is when
 the floor changes

---
 src/position_postprocessor/position_postprocessor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 1cfde0d..994174c 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -207,7 +207,8 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   //TODO check if pedometer is available before using steps!
   //TODO be very carefull when use stops and gps simultaneously
   bool lastStepWasTooLongAgo = (mLastStepTs > 0) && (ts - mLastStepTs >= mStopDetectionTimeMs);
-  double dist = GetDist(mLastOutPosition.x, mLastOutPosition.y, result.x, result.y);
+  const Position lastOnLevel = convertToLevel(mLastOutPosition, result.levelId);
+  double dist = GetDist(lastOnLevel.x, lastOnLevel.y, result.x, result.y);
   bool newPositionIsNotTooFar = dist < mStopsDistThresholdM;
 
   mLastOutPosition.ts = ts;
@@ -221,7 +222,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
     }
     else
     {
-      mLastOutPosition.ts = ts;
+      return mLastOutPosition; // is on the graph and in the box of its own level already
     }
   }
   else
-- 
2.43.0


From f01b7b2c8589e5e69dc44a87d70f7b38284e4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 27/36] fix: a position is checked against, projected in and
 clamped to its own level

---
 src/navigation_client_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index b318d5a..55fbb67 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -100,7 +100,8 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!fusedPos.isEmpty)
         mPrevFusedPosHeading = fusedPos.heading;
 
-      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, level);
+      const Level& positionLevel = fusedPos.isEmpty ? level : mLevelIndex->level(fusedPos.levelId);
+      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, positionLevel);
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-- 
2.43.0


From a6cba837a7a21bdbc71e0242549e70b3fa701105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 28/36] fix: the least squares smoother counts unchanged
 coordinates, a track at rest no longer runs away

---
 src/position_postprocessor/polynomial_fit.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index 161978b..50516a5 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -28,14 +28,12 @@ void PolynomialFit::addSequencePoint(double x, double y)
     {
         mY.back() = y; // two values at one moment make the system singular, keep the latest
     }
-    else if (mY.empty() || mY.back() != y)
+    else // an unchanged value counts as well, otherwise the fit runs away when the motion ends
     {
         mY.push_back(y);
         mX.push_back(x);
         removeOldPoints();
     }
-    else
-        return;
 
     if ((int)mY.size() > mPower)
         getLeastSquaresCoeff();
-- 
2.43.0


From 02baa790c8a6d2919a6f2fc5dcb3466800b3a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 29/36] fix: trilateration keeps the given measurements,
 calculating again gives the same position

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 6 +++++-
 standalone_algorithms/trilateteration/src/trilateration.h   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index fa68b19..4775891 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -27,6 +27,7 @@ Trilateration::Trilateration()
 
 Trilateration::Trilateration( const Trilateration& trilat )
   : mLocationBeacons( trilat.mLocationBeacons )
+  , mMeasurements   ( trilat.mMeasurements )
   , mBeaconMeas     ( trilat.mBeaconMeas )
   , mXY             ( trilat.mXY )
   , mCurLocationId  ( trilat.mCurLocationId )
@@ -44,7 +45,7 @@ Trilateration::~Trilateration()
 
 void Trilateration::updateMeasurements( std::vector < BeaconMeas >& beaconMeas )
 {
-  Trilateration::mBeaconMeas = beaconMeas;
+  Trilateration::mMeasurements = beaconMeas;
 }
 
 
@@ -56,6 +57,9 @@ void Trilateration::fillLocationBeacons( std::vector <Beacon>& beaconsOnFloor )
 
 int Trilateration::calculateCoordinates()
 {
+  // the given measurements are kept, they can be used again (e.g. on another floor)
+  mBeaconMeas = mMeasurements;
+
   int errorCode = deleteDuplicateMeasurements( Trilateration::mBeaconMeas );
 
   if (errorCode)
diff --git a/standalone_algorithms/trilateteration/src/trilateration.h b/standalone_algorithms/trilateteration/src/trilateration.h
index 1cd986e..64e37ea 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.h
+++ b/standalone_algorithms/trilateteration/src/trilateration.h
@@ -62,7 +62,8 @@ class Trilateration
   private:
 
     std::vector <Beacon>     mLocationBeacons;      //set of beacons at the current location
-    std::vector <BeaconMeas> mBeaconMeas;           //set of beacon measurements
+    std::vector <BeaconMeas> mMeasurements;         //given set of beacon measurements
+    std::vector <BeaconMeas> mBeaconMeas;           //set of beacon measurements used in the calculation
     std::vector <double>     mXY;                   //desired X,Y coordinates
     int                      mCurLocationId;        //id of location
     
-- 
2.43.0


From 313ce97908d9122a982b769819ad9bcd379bec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 30/36] fix: a sensor sample counts once, not again with every
 later message of another kind

---
 src/level_estimator/barometer.cpp             | 12 ++++++------
 src/level_estimator/barometer.h               |  5 +++--
 src/level_estimator/level_estimator.cpp       |  2 +-
 src/level_estimator/level_estimator.h         |  4 +++-
 src/measurements/measurement_preprocessor.cpp |  8 ++++++++
 src/measurements/measurement_preprocessor.h   |  2 ++
 src/navigation_client_impl.cpp                |  5 +++--
 src/sensor_fusion/sensor_fusion.cpp           | 14 +++++++++-----
 src/sensor_fusion/sensor_fusion.h             |  3 ++-
 9 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/level_estimator/barometer.cpp b/src/level_estimator/barometer.cpp
index 7d04b15..4839fd0 100644
--- a/src/level_estimator/barometer.cpp
+++ b/src/level_estimator/barometer.cpp
@@ -41,7 +41,7 @@ static double calcMean(const std::deque<double>& measurements)
 // - the floor is changed only if the vertical displacement is more than distance between floors (i.e. 3m)
 LevelId Barometer::checkLevelChange(
   const LevelId& levelId,
-  const SensorMeasurement& sensorMsr)
+  const boost::optional<SensorMeasurement>& sensorMsr)
 {
   if (!mIsInitialized)
   {
@@ -54,17 +54,17 @@ LevelId Barometer::checkLevelChange(
   return mLastKnownLevel;
 }
 
-void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
+void Barometer::updateBuffers(const boost::optional<SensorMeasurement>& sensorMsr)
 {
 #ifdef DEBUG_OUTPUT_BAROMETER
   std::ofstream debugOutputFile;
   debugOutputFile.open(DEBUG_OUTPUT_BAROMETER, std::ios_base::app);
-  if (sensorMsr.data.type == SENSOR_ENTRY_BAROMETER)
-    debugOutputFile << m.ts << " " << m.values.x << std::endl;
+  if (sensorMsr.is_initialized() && sensorMsr->data.type == SensorMeasurementData::Type::BAROMETER)
+    debugOutputFile << sensorMsr->ts << " " << sensorMsr->data.values.x << std::endl;
   debugOutputFile.close();
 #endif
 
-  if (sensorMsr.data.type == SensorMeasurementData::Type::BAROMETER)
+  if (sensorMsr.is_initialized() && sensorMsr->data.type == SensorMeasurementData::Type::BAROMETER)
   {
     if (mStoredMeasurements.size() > SIZE_OF_CHUNK)
       mStoredMeasurements.pop_front();
@@ -75,7 +75,7 @@ void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
       mNewMeasurements.pop_front();
     }
 
-    mNewMeasurements.push_back(sensorMsr.data.values.x);
+    mNewMeasurements.push_back(sensorMsr->data.values.x);
   }
 }
 
diff --git a/src/level_estimator/barometer.h b/src/level_estimator/barometer.h
index fb90a2b..eb21b9c 100644
--- a/src/level_estimator/barometer.h
+++ b/src/level_estimator/barometer.h
@@ -9,6 +9,7 @@
 
 #include <navigine/navigation-core/navigation_input.h>
 
+#include <boost/optional.hpp>
 #include <deque>
 #include <navigine/navigation-core/level.h>
 
@@ -23,10 +24,10 @@ class Barometer
     Barometer() : mIsInitialized ( false ), mLastKnownLevel ( LevelId("")) {}
     LevelId checkLevelChange(
       const LevelId &levelId,
-      const SensorMeasurement& sensorMsr);
+      const boost::optional<SensorMeasurement>& sensorMsr);
 
   private:
-    void updateBuffers(const SensorMeasurement& sensorMsr);
+    void updateBuffers(const boost::optional<SensorMeasurement>& sensorMsr);
     void updateLevel(LevelId levelId);
 
     std::deque<double> mNewMeasurements = {};
diff --git a/src/level_estimator/level_estimator.cpp b/src/level_estimator/level_estimator.cpp
index e10f0d9..ae8c767 100644
--- a/src/level_estimator/level_estimator.cpp
+++ b/src/level_estimator/level_estimator.cpp
@@ -22,7 +22,7 @@ LevelEstimator::LevelEstimator(const NavigationSettings& navProps)
  */
 LevelId LevelEstimator::calculateLevel(
   const RadioMeasurementsData& radioMsr,
-  const SensorMeasurement& sensorMsr)
+  const boost::optional<SensorMeasurement>& sensorMsr)
 {
   LevelId detectedLevelId = detectCurrentLevel(radioMsr);
   LevelId levelIdWithHistory = mHistory.detectLevelUsingHistory(detectedLevelId);
diff --git a/src/level_estimator/level_estimator.h b/src/level_estimator/level_estimator.h
index 2be6fac..40dedea 100644
--- a/src/level_estimator/level_estimator.h
+++ b/src/level_estimator/level_estimator.h
@@ -11,6 +11,8 @@
 #include <navigine/navigation-core/navigation_settings.h>
 #include <navigine/navigation-core/level_collector.h>
 
+#include <boost/optional.hpp>
+
 #include "level_history.h"
 #include "barometer.h"
 
@@ -26,7 +28,7 @@ class LevelEstimator
     virtual ~LevelEstimator() {}
     LevelId calculateLevel(
       const RadioMeasurementsData& radioMsr,
-      const SensorMeasurement& sensorMsr);
+      const boost::optional<SensorMeasurement>& sensorMsr);
 
   protected:
     virtual LevelId detectCurrentLevel(const RadioMeasurementsData& radioMsr) = 0;
diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index 1129dc1..5332379 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -92,6 +92,7 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
 void MeasurementsPreprocessor::updateMeasurements(const Measurement& navMsg)
 {
   mCurrentTs = navMsg.ts;
+  mIsNewSensor = false;
   boost::apply_visitor(*this, navMsg.data);
 }
 
@@ -113,6 +114,7 @@ void MeasurementsPreprocessor::operator()(const SensorMeasurementData& measureme
 {
   mSensor.data = measurement;
   mSensor.ts = mCurrentTs;
+  mIsNewSensor = true;
 }
 
 void MeasurementsPreprocessor::operator()(const NmeaMeasurementData& measurement)
@@ -337,6 +339,12 @@ RadioMeasurementsData RadioMeasurementBuffer::extractMeasurements(long long last
   return measurements;
 }
 
+/** Sensor measurement of the last message: one that was already returned is not returned again with messages of other kinds */
+boost::optional<SensorMeasurement> MeasurementsPreprocessor::getNewSensor() const
+{
+  return mIsNewSensor ? boost::make_optional(mSensor) : boost::none;
+}
+
 SensorMeasurement MeasurementsPreprocessor::getValidSensor() const
 {
   return mSensor;
diff --git a/src/measurements/measurement_preprocessor.h b/src/measurements/measurement_preprocessor.h
index 145238b..da20da7 100644
--- a/src/measurements/measurement_preprocessor.h
+++ b/src/measurements/measurement_preprocessor.h
@@ -58,6 +58,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     long long getLastSignalTs() const;
     RadioMeasurementsData extractRadioMeasurements(long long lastStepTime);
     SensorMeasurement getValidSensor() const;
+    boost::optional<SensorMeasurement> getNewSensor() const;
     NmeaMeasurement getCurrentNmea() const;
 
     void operator()(const RadioMeasurementData& measurement);
@@ -89,6 +90,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     long long mCurrentTs;
 
     SensorMeasurement mSensor;
+    bool mIsNewSensor = false;
     NmeaMeasurement mNmea;
 };
 
diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index 55fbb67..de8a72c 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -56,11 +56,12 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
     const long long curTs = mMsrPreprocessor->getCurrentTs();
     const long long lastSignalTs = mMsrPreprocessor->getLastSignalTs();
     const SensorMeasurement sensorMsr = mMsrPreprocessor->getValidSensor();
+    const boost::optional<SensorMeasurement> newSensorMsr = mMsrPreprocessor->getNewSensor();
     const NmeaMeasurement nmeaMsr = mMsrPreprocessor->getCurrentNmea();
-    MotionInfo motionInfo = mSensorFusion->calculateDisplacement(sensorMsr, curTs);
+    MotionInfo motionInfo = mSensorFusion->calculateDisplacement(newSensorMsr, curTs);
     const auto radioMsr = mMsrPreprocessor->extractRadioMeasurements(motionInfo.lastMotionTs);
 
-    LevelId levelId = mLevelEstimator->calculateLevel(radioMsr, sensorMsr);
+    LevelId levelId = mLevelEstimator->calculateLevel(radioMsr, newSensorMsr);
     const Position outdoorPos = mPositionEstimatorOutdoor->calculatePosition(curTs, sensorMsr, nmeaMsr, mFlagIndoorPos);
     mFlagIndoorPos = false; // TODO refactoring needed
 
diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a419761..a879ddd 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -14,12 +14,16 @@ SensorFusion::SensorFusion(const NavigationSettings& navProps)
 {
 }
 
-MotionInfo SensorFusion::calculateDisplacement(const SensorMeasurement& msr, long long tsMs)
+MotionInfo SensorFusion::calculateDisplacement(const boost::optional<SensorMeasurement>& msr, long long tsMs)
 {
-  mPedometer.update(msr);
-  std::deque<Step> steps = mPedometer.calculateSteps();
-  
-  mComplFilter.update(msr);
+  std::deque<Step> steps;
+  if (msr.is_initialized())
+  {
+    mPedometer.update(msr.get());
+    steps = mPedometer.calculateSteps();
+
+    mComplFilter.update(msr.get());
+  }
 
   MotionInfo motionInfo;
   motionInfo.heading = -mComplFilter.getFusedAzimuth(); // the counter-clockwise rotation needed
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 9cc56b2..3382531 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -11,6 +11,7 @@
 #include <navigine/navigation-core/navigation_input.h>
 #include <navigine/navigation-core/navigation_settings.h>
 
+#include <boost/optional.hpp>
 #include <vector>
 
 #include "complementary_filter.h"
@@ -23,7 +24,7 @@ class SensorFusion
 {
 public:
   SensorFusion(const NavigationSettings& navProps);
-  MotionInfo calculateDisplacement(const SensorMeasurement& msr, long long tsMs);
+  MotionInfo calculateDisplacement(const boost::optional<SensorMeasurement>& msr, long long tsMs);
 
 private:
   const bool mUseCalcAzimuth;
-- 
2.43.0


From 61b7b21648837105199090e381debb18e8d57192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 31/36] fix: a quaternion multiplied by itself in place gives
 its square

---
 src/sensor_fusion/quaternion.cpp                         | 9 +++++----
 .../complementary_filter/src/quaternion.cpp              | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sensor_fusion/quaternion.cpp b/src/sensor_fusion/quaternion.cpp
index 34e6b8a..fe2dec5 100644
--- a/src/sensor_fusion/quaternion.cpp
+++ b/src/sensor_fusion/quaternion.cpp
@@ -81,10 +81,11 @@ Quaternion& Quaternion::operator*=(const double& scale)
 Quaternion& Quaternion::operator*=(const Quaternion& other)
 {
   double qw = w, qx = x, qy = y, qz = z;
-  this->w = qw*other.w - qx*other.x - qy*other.y - qz*other.z;
-  this->x = qw*other.x + qx*other.w + qy*other.z - qz*other.y;
-  this->y = qw*other.y - qx*other.z + qy*other.w + qz*other.x;
-  this->z = qw*other.z + qx*other.y - qy*other.x + qz*other.w;
+  // the result is assigned at once, since other may be this quaternion
+  *this = Quaternion(qw*other.w - qx*other.x - qy*other.y - qz*other.z,
+                     qw*other.x + qx*other.w + qy*other.z - qz*other.y,
+                     qw*other.y - qx*other.z + qy*other.w + qz*other.x,
+                     qw*other.z + qx*other.y - qy*other.x + qz*other.w);
   return *this;
 }
 
diff --git a/standalone_algorithms/complementary_filter/src/quaternion.cpp b/standalone_algorithms/complementary_filter/src/quaternion.cpp
index 5451f5b..db00c66 100644
--- a/standalone_algorithms/complementary_filter/src/quaternion.cpp
+++ b/standalone_algorithms/complementary_filter/src/quaternion.cpp
@@ -74,10 +74,11 @@ Quaternion& Quaternion::operator*=(const double& scale)
 Quaternion& Quaternion::operator*=(const Quaternion& other)
 {
   double qw = w, qx = x, qy = y, qz = z;
-  this->w = qw*other.w - qx*other.x - qy*other.y - qz*other.z;
-  this->x = qw*other.x + qx*other.w + qy*other.z - qz*other.y;
-  this->y = qw*other.y - qx*other.z + qy*other.w + qz*other.x;
-  this->z = qw*other.z + qx*other.y - qy*other.x + qz*other.w;
+  // the result is assigned at once, since other may be this quaternion
+  *this = Quaternion(qw*other.w - qx*other.x - qy*other.y - qz*other.z,
+                     qw*other.x + qx*other.w + qy*other.z - qz*other.y,
+                     qw*other.y - qx*other.z + qy*other.w + qz*other.x,
+                     qw*other.z + qx*other.y - qy*other.x + qz*other.w);
   return *this;
 }
 
-- 
2.43.0


From 17a26c7d6fc97a4cb36db18e53d8f34c0728c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 32/36] fix: measurements with the time of the last extraction
 are not dropped from the packets

---
 .../position_estimation/src/measurement_preprocessor.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
index 2262004..f9817a8 100644
--- a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
+++ b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
@@ -93,8 +93,8 @@ void RadioMeasurementBuffer::addMeasurements(long long messageTs, const std::vec
     RadioMeasurement radioMsr = msr;
     radioMsr.rssi = msr.rssi;
 
-    // check if it is a fresh measurement
-    if (radioMsr.ts > mLastExtractionTs)
+    // check if it is a fresh measurement (not older than the last extraction)
+    if (radioMsr.ts >= mLastExtractionTs)
       mMeasurements.push_back(radioMsr);
 
     mCurrentTs = std::max(radioMsr.ts, mCurrentTs);
-- 
2.43.0


From fd674b14115cff7d569288e1117df339ff089b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 33/36] fix: the time of an averaged measurement and of a
 position is that of the newest measurement in it

---
 .../position_estimation/src/measurement_preprocessor.cpp     | 5 +++++
 .../src/nearest_transmitter_estimator.cpp                    | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
index f9817a8..19e63c3 100644
--- a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
+++ b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
@@ -148,6 +148,11 @@ std::vector<RadioMeasurement> RadioMeasurementBuffer::extractMeasurements()
     RadioMeasurement radioMsr = *sameIdFirst;
     radioMsr.rssi = averRssi;
     radioMsr.distance = averDistance;
+    radioMsr.ts = std::max_element(sameIdFirst, sameIdLast,
+                                   [](const RadioMeasurement& lhs, const RadioMeasurement& rhs)
+                                   {
+                                     return lhs.ts < rhs.ts;
+                                   })->ts;
     measurements.push_back(radioMsr);
     sameIdFirst = sameIdLast;
   }
diff --git a/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp b/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
index 7379dba..7f9274d 100644
--- a/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
+++ b/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
@@ -47,7 +47,8 @@ Position NearestTransmitterPositionEstimator::calculatePosition(const RadioMeasu
     position.y = t.y;
     position.precision = std::sqrt(std::exp((A - nearestTxRssi) / B)) + 1.0;
     position.isEmpty = false;
-    position.ts = radioMeasurements.back().ts;
+    position.ts = std::max_element(radioMeasurements.begin(), radioMeasurements.end(),
+          [](const RadioMeasurement& msr1, const RadioMeasurement& msr2) {return msr1.ts < msr2.ts; })->ts;
     return m_smoother.smoothPosition(position);
   }
 }
-- 
2.43.0


From c800b9442449f8c983bb2549cacfdfa113c47bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 34/36] fix: the radio map likelihood does not use the point of
 an earlier epoch or another level when there are too few measurements

---
 src/likelihood/likelihood_radiomap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/likelihood/likelihood_radiomap.cpp b/src/likelihood/likelihood_radiomap.cpp
index 87f1fca..44ded6b 100644
--- a/src/likelihood/likelihood_radiomap.cpp
+++ b/src/likelihood/likelihood_radiomap.cpp
@@ -146,6 +146,7 @@ void LikelihoodRadiomap::doPreliminaryCalculations(
     const Level& level,
     const RadioMeasurementsData& radioMsr)
 {
+  mLikelihoodPoint = boost::none; // the point of an earlier epoch or of another level is not valid any more
   const std::set<TransmitterId>& txIds = mLevelReferenceTransmittersMap.at(level.id());
   auto validMsr = getWhitelistedMeasurements(txIds, radioMsr);
 
-- 
2.43.0


From e11fea03d0c1b08e99153c62b1ee1ecf432496d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 35/36] fix: the ENU azimuth setting applies to satellite-only
 positions as well

---
 src/navigation_client_impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index de8a72c..429f79a 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -106,9 +106,6 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-
-      if (mUseEnuAzimuth)
-        motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
     }
     else if (!outdoorPos.isEmpty)
     {
@@ -119,6 +116,9 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       retStatus = NavigationStatus::NO_LEVEL;
     }
 
+    if (mUseEnuAzimuth)
+      motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
+
     // Filling navigationSate for Debug
     auto navigationState = mPositionEstimatorIndoor->getParticleFilterState();
     navigationState.setStepCounter(motionInfo.stepCounter);
-- 
2.43.0


From d915b48a90eea885cf7dc3a42c7437ff5971002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:52 +0000
Subject: [PATCH 36/36] fix: the least squares smoother keeps its precision in
 long sessions

---
 src/position_postprocessor/polynomial_fit.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index 50516a5..bac5712 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -101,7 +101,7 @@ double PolynomialFit::getLagrangeSolution(double curTime)
 double PolynomialFit::getLeastSquaresSolution (double curTime)
 {
   double out  = 0.0;
-  double time = curTime - mTimeShift;
+  double time = curTime - mTimeShift - mX.back();
   
   for (int i = 0; i <= mPower; i++)
   {
@@ -117,13 +117,14 @@ void PolynomialFit::getLeastSquaresCoeff()
   std::vector <double> sub(2*mPower + 1, 0.);
   double sum;
 
+  // Times are counted from the newest point: large ones would make the system ill-conditioned
   // Initialize sub
   for (int i = 0; i < 2 * mPower + 1; i++)
   {
     sum = 0;
     for (size_t j = 0; j < mY.size(); j++)
     {
-      sum += pow(mX[j], i);
+      sum += pow(mX[j] - mX.back(), i);
     }
     sub[i] = sum;
   }
@@ -138,7 +139,7 @@ void PolynomialFit::getLeastSquaresCoeff()
     sum = 0;
     for (size_t j = 0; j < mY.size(); j++)
     {
-      sum += pow(mX[j], i) * mY[j];
+      sum += pow(mX[j] - mX.back(), i) * mY[j];
     }
     b[i] = sum;
   }
-- 
2.43.0

