From 0042fd753ee38b4deef391573616b7f01eacfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 01/70] fix: return value of nearest point in
 Hyperslab::nearest()

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..5157a0c 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -475,8 +475,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
@@ -531,8 +531,8 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
-- 
2.43.0


From a94a374377eaaf302ae5431a5483b59c23a24602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 02/70] fix: only use values with nonzero weight in hyperslab
 interpolation

At a grid point the answer depended on which buffered portion of the dataset was in
memory, because NODATA values in neighboring points with zero weight were used or not
depending on its origin. Datasets with a single point along a dimension were read out
of bounds.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 26 +++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 5157a0c..bb58f35 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -89,6 +89,20 @@ private:
     void _nearest3D(double* const values,
                     const double indexFloat[]);
 
+    /** Snap coordinate within cell to corner of cell if within tolerance of it.
+     *
+     * @param[in] x Coordinate within cell (0 <= x <= 1).
+     * @param[in] tolerance Tolerance for matching a corner.
+     * @returns Coordinate within cell.
+     */
+    static
+    double _snapToCorner(const double x,
+                         const double tolerance) {
+        if (x < tolerance) { return 0.0; }
+        if (x > 1.0 - tolerance) { return 1.0; }
+        return x;
+    } // _snapToCorner
+
     geomodelgrids::serial::Hyperslab& _hyperslab; ///< Reference to hyperslab.
     interpolate_fn_type _interpolate; ///< Function for interpolation.
     interpolate_fn_type _nearest; ///< Function for nearest.
@@ -283,8 +297,8 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
 
     // Coordinates within cell relative to "lower" point.
     const double xRef[spaceDim] = {
-        indexSlab[0] - dfloor[0],
-        indexSlab[1] - dfloor[1],
+        _Hyperslab::_snapToCorner(indexSlab[0] - dfloor[0], tolerance),
+        _Hyperslab::_snapToCorner(indexSlab[1] - dfloor[1], tolerance),
     };
 
     const double wts[2][2] = {
@@ -314,6 +328,7 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
         values[iValue] = 0;
         for (hsize_t iDim = 0; iDim < 2; ++iDim) {
             for (hsize_t jDim = 0; jDim < 2; ++jDim) {
+                if (0.0 == wts[iDim][jDim]) { continue; } // Corner is not used in interpolation.
                 values[iValue] += wts[iDim][jDim] * _hyperslab._values[ii[iDim][jDim] + iValue];
             } // for
         } // for
@@ -364,9 +379,9 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
 
     // Coordinates within cell relative to "lower" point.
     const double xRef[spaceDim] = {
-        indexSlab[0] - dfloor[0],
-        indexSlab[1] - dfloor[1],
-        indexSlab[2] - dfloor[2],
+        _Hyperslab::_snapToCorner(indexSlab[0] - dfloor[0], tolerance),
+        _Hyperslab::_snapToCorner(indexSlab[1] - dfloor[1], tolerance),
+        _Hyperslab::_snapToCorner(indexSlab[2] - dfloor[2], tolerance),
     };
 
     const double wts[2][2][2] = {
@@ -418,6 +433,7 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
         for (hsize_t iDim = 0; iDim < 2; ++iDim) {
             for (hsize_t jDim = 0; jDim < 2; ++jDim) {
                 for (hsize_t kDim = 0; kDim < 2; ++kDim) {
+                    if (0.0 == wts[iDim][jDim][kDim]) { continue; } // Corner is not used in interpolation.
                     const double interpolateValue = _hyperslab._values[ii[iDim][jDim][kDim] + iValue];
                     if (fabs(1.0 - interpolateValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
                         hasNoDataValue = true;
-- 
2.43.0


From ad17fcfaa87cbed87759a7da3d506d4931a58678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 03/70] fix: do not abort on points outside variable resolution
 grids

Querying the surface of a model with variable resolution at a point outside the
model aborted in IndexingVariable::getIndex(). Return an index outside the range of the
grid, as is done for uniform resolution, so that the caller can detect it.
---
 libsrc/geomodelgrids/utils/Indexing.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 96060fa..cf1f1bb 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -78,9 +78,7 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
     size_t indexL = 0;
     size_t indexR = _numX - 1;
     const double xN = (_order == ASCENDING) ? _x[0] + x : _x[0] - x;
-    const double tolerance = 1.0e-6;
-    assert((ASCENDING == _order && (xN >= _x[indexL]-tolerance) && (xN <= _x[indexR]+tolerance)) ||
-           (DESCENDING == _order && (xN <= _x[indexL]+tolerance) && (xN >= _x[indexR]-tolerance)));
+    if (1 == _numX) { return x; } // Index is only meaningful at coordinate.
 
     typedef bool (*cmp_fn)(const double,
                            const double);
@@ -94,9 +92,10 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
             indexL = indexM;
         } // if/else
     } // while
-    assert((ASCENDING == _order && xN >= _x[indexL]-tolerance && _x[indexR] > _x[indexL]) ||
-           (DESCENDING == _order && xN <= _x[indexL]+tolerance && _x[indexR] <= _x[indexL]));
+    assert((ASCENDING == _order && _x[indexR] > _x[indexL]) ||
+           (DESCENDING == _order && _x[indexR] <= _x[indexL]));
 
+    // Points outside the range of the coordinates give an index outside the range [0, _numX-1].
     index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
     return index;
 }
-- 
2.43.0


From 5c8698944ccb208423795979f085c06e07507df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 04/70] fix: answer points on the boundaries of the model and
 its blocks despite roundoff

Points on the far faces, at the bottom, or at interfaces between blocks of a model whose
dimensions are not exact in binary were reported as outside the model or aborted.
---
 libsrc/geomodelgrids/serial/Block.cc   | 10 ++++++++++
 libsrc/geomodelgrids/serial/Model.cc   | 10 +++++++++-
 libsrc/geomodelgrids/serial/Surface.cc |  8 ++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..dbf18c9 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -330,6 +330,16 @@ geomodelgrids::serial::Block::query(const double x,
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
     index[2] = _indexingZ->getIndex(_zTop - z);
+    for (size_t i = 0; i < 3; ++i) {
+        // Account for roundoff errors at boundaries of block.
+        const double tolerance = 1.0e-6;
+        const double indexMax = double(_dims[i]-1);
+        if ((index[i] < 0.0) && (index[i] > -tolerance)) {
+            index[i] = 0.0;
+        } else if ((index[i] > indexMax) && (index[i] < indexMax + tolerance)) {
+            index[i] = indexMax;
+        } // if/else
+    } // for
 
     assert( (_numValues > 0 && _values) || (!_numValues && !_values) );
 
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..c0f1ecd 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -491,7 +491,9 @@ geomodelgrids::serial::Model::_toModelXYZ(double* xModel,
         *zModel = zBottom * (zGroundSurf - zModelCRS) / (zGroundSurf - zBottom);
         if ((*zModel > 0.0) && (*zModel < TOLERANCE)) {
             *zModel = 0.0;
-        } // if
+        } else if ((*zModel < zBottom) && (*zModel > zBottom - TOLERANCE)) {
+            *zModel = zBottom;
+        } // if/else
     } // if
 } // _toModelXYZ
 
@@ -506,6 +508,12 @@ geomodelgrids::serial::Model::_findBlock(const double x,
             return block;
         } // if
     } // for
+    // Account for roundoff errors in elevations of the top and bottom of the blocks.
+    for (auto block : _blocks) {
+        if (( z <= block->getZTop() + TOLERANCE) && ( z >= block->getZBottom() - TOLERANCE) ) {
+            return block;
+        } // if
+    } // for
     static std::shared_ptr<geomodelgrids::serial::Block> empty;
     return empty;
 } // _findBlock
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..3b997eb 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -215,6 +215,14 @@ geomodelgrids::serial::Surface::query(const double x,
     double index[2];
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
+    for (size_t i = 0; i < 2; ++i) {
+        // Account for roundoff errors at boundaries of surface.
+        const double tolerance = 1.0e-6;
+        const double indexMax = double(_dims[i]-1);
+        if ((index[i] > indexMax) && (index[i] < indexMax + tolerance)) {
+            index[i] = indexMax;
+        } // if
+    } // for
 
     double elevation = geomodelgrids::NODATA_VALUE;
     if ((index[0] >= 0) && (index[0] <= double(_dims[0]-1))
-- 
2.43.0


From 0a1e3ef032ee82765662811fa7b018be7b3301f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 05/70] fix: throw exception instead of aborting when querying
 model for point outside it

The Python interpreter was aborted by Model.query() with a point outside the model.
---
 libsrc/geomodelgrids/serial/Model.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index c0f1ecd..1347e7b 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -451,9 +451,15 @@ geomodelgrids::serial::Model::query(const double x,
     double yModel = 0.0;
     double zModel = 0.0;
     _toModelXYZ(&xModel, &yModel, &zModel, x, y, z);
-    assert(contains(x, y, z));
-
-    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);assert(block);
+    std::shared_ptr<geomodelgrids::serial::Block> block;
+    if (contains(x, y, z)) {
+        block = _findBlock(xModel, yModel, zModel);
+    } // if
+    if (!block) {
+        std::ostringstream msg;
+        msg << "Could not find block in model containing point (" << x << ", " << y << ", " << z << ").";
+        throw std::domain_error(msg.str());
+    } // if
     return block->query(xModel, yModel, zModel);
 } // query
 
-- 
2.43.0


From 6f5906bb1cbdbb978a8f70d6ae3648855c516aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 06/70] fix: answer points on the horizontal boundaries of
 rotated models despite roundoff

Points on the edges of a model that is rotated, or has large coordinates, were reported as
outside the model depending on the roundoff in the rotation.
---
 libsrc/geomodelgrids/serial/Model.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 1347e7b..677ff3a 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -488,6 +488,18 @@ geomodelgrids::serial::Model::_toModelXYZ(double* xModel,
     *xModel = xRel*cosAz - yRel*sinAz;
     *yModel = xRel*sinAz + yRel*cosAz;
 
+    // Account for roundoff errors at horizontal boundaries of the model.
+    const double tolerance = 1.0e-6;
+    double* xyModel[2] = { xModel, yModel };
+    for (size_t i = 0; i < 2; ++i) {
+        double& value = *xyModel[i];
+        if ((value < 0.0) && (value > -tolerance)) {
+            value = 0.0;
+        } else if ((value > _dims[i]) && (value < _dims[i] + tolerance)) {
+            value = _dims[i];
+        } // if/else
+    } // for
+
     if (zModel) {
         double zGroundSurf = 0.0;
         if (_surfaceTop) {
-- 
2.43.0


From 0146e06932e5f6c665c63678b4c9c054b663fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 07/70] fix: leave query object uninitialized after failed
 initialize() and after finalize()

Querying after an initialize() that failed, or after finalize(), aborted the process (assert)
or used models that are not initialized.
---
 libsrc/geomodelgrids/serial/Query.cc | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 4b63196..3f1f212 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -91,29 +91,33 @@ void
 geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFilenames,
                                          const std::vector<std::string>& valueNames,
                                          const std::string& inputCRSString) {
-    _valuesLowercase = _Query::toLower(valueNames);
-
-    for (size_t i = 0; i < _models.size(); ++i) {
-        _models[i].reset();
-    } // for
+    // Object remains uninitialized if we encounter errors.
+    _valuesLowercase.clear();
+    _valuesIndex.clear();
+    _models.clear();
 
+    const std::vector<std::string>& valuesLowercase = _Query::toLower(valueNames);
     const size_t numModels = modelFilenames.size();
-    _models.resize(numModels);
-    _valuesIndex.resize(numModels);
+    std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models(numModels);
+    std::vector<values_map_type> valuesIndex(numModels);
     std::map<size_t, std::string> valueUnits;
     for (size_t iModel = 0; iModel < numModels; ++iModel) {
-        _models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(_models[iModel]);
-        _models[iModel]->setInputCRS(inputCRSString);
-        _models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
-        _models[iModel]->loadMetadata();
-        _models[iModel]->initialize();
+        models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(models[iModel]);
+        models[iModel]->setInputCRS(inputCRSString);
+        models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
+        models[iModel]->loadMetadata();
+        models[iModel]->initialize();
 
-        _valuesIndex[iModel] = _Query::createModelValuesIndex(*_models[iModel], _valuesLowercase);
+        valuesIndex[iModel] = _Query::createModelValuesIndex(*models[iModel], valuesLowercase);
 
-        const std::vector<std::string>& modelValues = _models[iModel]->getValueNames();
-        const std::vector<std::string>& modelUnitsLower = _Query::toLower(_models[iModel]->getValueUnits());
-        _Query::checkUnits(&valueUnits, _valuesIndex[iModel], modelValues, modelUnitsLower);
+        const std::vector<std::string>& modelValues = models[iModel]->getValueNames();
+        const std::vector<std::string>& modelUnitsLower = _Query::toLower(models[iModel]->getValueUnits());
+        _Query::checkUnits(&valueUnits, valuesIndex[iModel], modelValues, modelUnitsLower);
     } // for
+
+    _valuesLowercase = valuesLowercase;
+    _valuesIndex.swap(valuesIndex);
+    _models.swap(models);
 } // initialize
 
 
@@ -251,6 +255,9 @@ geomodelgrids::serial::Query::finalize(void) {
             _models[i]->close();
         } // if
     } // for
+    _models.clear();
+    _valuesIndex.clear();
+    _valuesLowercase.clear();
 } // finalize
 
 
-- 
2.43.0


From 09bfba9996aefd15d2aab3ed87d3c620bbf60f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 08/70] fix: discard hyperslab after failed read

After a failed read, later queries near the same point used the values from the previous
location (or uninitialized values) without reading again.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index bb58f35..acb3abe 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -237,8 +237,14 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
             origin[i] = index;
         } // for
 
-        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
-                                             H5T_NATIVE_DOUBLE);
+        try {
+            _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
+                                                 H5T_NATIVE_DOUBLE);
+        } catch (...) {
+            // Hyperslab does not hold valid values, so force reading values in the next query.
+            delete[] _hyperslab._origin;_hyperslab._origin = nullptr;
+            throw;
+        } // try/catch
     } // if
 } // getSlab
 
-- 
2.43.0


From fecdaf14d11c6b9f64883a404dd822a216eda331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 09/70] fix: report failure of checks for groups, datasets, and
 attributes

Failed checks were treated as 'attribute is missing' (leaving, for example, the elevation of the top
of a block at its default) or aborted.
---
 libsrc/geomodelgrids/serial/HDF5.cc | 40 ++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..e4531ab 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -146,16 +146,26 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    const htri_t hasLink = H5Lexists(_file, name, H5P_DEFAULT);
+    if (hasLink < 0) {
+        std::ostringstream msg;
+        msg << "Could not check whether '" << name << "' exists.";
+        throw std::runtime_error(msg.str());
+    } // if
+    if (hasLink) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if ((h5access.object < 0) || (err < 0)) {
+            std::ostringstream msg;
+            msg << "Could not get information about '" << name << "'.";
+            throw std::runtime_error(msg.str());
+        } // if
         if (H5O_TYPE_GROUP == info.type) {
             exists = true;
         } // if
@@ -173,16 +183,26 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    const htri_t hasLink = H5Lexists(_file, name, H5P_DEFAULT);
+    if (hasLink < 0) {
+        std::ostringstream msg;
+        msg << "Could not check whether '" << name << "' exists.";
+        throw std::runtime_error(msg.str());
+    } // if
+    if (hasLink) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if ((h5access.object < 0) || (err < 0)) {
+            std::ostringstream msg;
+            msg << "Could not get information about '" << name << "'.";
+            throw std::runtime_error(msg.str());
+        } // if
         if (H5O_TYPE_DATASET == info.type) {
             exists = true;
         } // if
@@ -255,7 +275,8 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
         for (int i = 0, index = 0; i < gsize; ++i) {
             char buffer[256];
             ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
+                                                 buffer, 256, H5P_DEFAULT);
+            if (namelen <= 0) { throw std::runtime_error("Could not get name of dataset."); }
             (*names)[index++] = buffer;
         } // for
 
@@ -278,6 +299,11 @@ geomodelgrids::serial::HDF5::hasAttribute(const char* path,
     assert(name);
 
     htri_t exists = H5Aexists_by_name(_file, path, name, H5P_DEFAULT);
+    if (exists < 0) {
+        std::ostringstream msg;
+        msg << "Could not check whether attribute '" << name << "' of '" << path << "' exists.";
+        throw std::runtime_error(msg.str());
+    } // if
     return exists > 0;
 } // hasAttribute
 
-- 
2.43.0


From 22b0ec402fc79af64ccd7060f370db8944a41618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 10/70] fix: throw exception instead of aborting for malformed
 datasets and attributes in model file

---
 libsrc/geomodelgrids/serial/Block.cc   |  6 +++++-
 libsrc/geomodelgrids/serial/HDF5.cc    | 19 +++++++++++++------
 libsrc/geomodelgrids/serial/Model.cc   | 14 ++++++++++++++
 libsrc/geomodelgrids/serial/Surface.cc |  6 +++++-
 4 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index dbf18c9..1d18adb 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -122,7 +122,11 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, blockPath.c_str());
-    assert(4 == ndims);
+    if (4 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    Expected 4 dimensions for block " << blockPath << ", found " << ndims << ".\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 3; ++i) {
         _dims[i] = hdims[i];
     } // for
diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index e4531ab..5201ec6 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -357,10 +357,12 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        const int ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (1 != ndims) { throw std::runtime_error("Expected 1-D array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        const hsize_t numValues = dims[0];
+        if (0 == numValues) { throw std::runtime_error("Expected at least one value for"); }
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
         void* buffer = (void*) new char[numValues * typeNumBytes];
@@ -415,7 +417,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, &buffer);
             if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
+            value = buffer ? buffer : "";
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, &buffer);
             if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
@@ -452,10 +454,15 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        const int ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (1 != ndims) { throw std::runtime_error("Expected 1-D array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
+        const hsize_t numStrings = dims[0];
+        if (0 == numStrings) {
+            values->clear();
+            return;
+        } // if
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -486,7 +493,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
-                (*values)[i] = buffer[i];
+                (*values)[i] = buffer[i] ? buffer[i] : "";
             } // for
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer);
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 677ff3a..a786e8b 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -242,6 +242,20 @@ geomodelgrids::serial::Model::loadMetadata(void) {
             missingAttributes = true;
         } // try/catch
     } // for
+    if (_h5->hasAttribute("/", "data_values") && _h5->hasAttribute("/", "data_units")) {
+        if (_valueUnits.size() != _valueNames.size()) {
+            msg << indent << "    Number of units in /data_units (" << _valueUnits.size()
+                << ") does not match number of values in /data_values (" << _valueNames.size() << ").\n";
+            missingAttributes = true;
+        } // if
+        for (size_t i = 0; i < numBlocks; ++i) {
+            if ((_blocks[i]->getNumValues() > 0) && (_blocks[i]->getNumValues() != _valueNames.size())) {
+                msg << indent << "    Number of values in /blocks/" << blockNames[i] << " (" << _blocks[i]->getNumValues()
+                    << ") does not match number of values in /data_values (" << _valueNames.size() << ").\n";
+                missingAttributes = true;
+            } // if
+        } // for
+    } // if
     std::sort(_blocks.begin(), _blocks.end(), Block::compare);
 
     if (missingAttributes) { throw std::runtime_error(msg.str().c_str()); }
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 3b997eb..7e20fef 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -85,7 +85,11 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, surfacePath.c_str());
-    assert(3 == ndims);
+    if (3 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    Expected 3 dimensions for surface " << surfacePath << ", found " << ndims << ".\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
     } // for
-- 
2.43.0


From b439a646125d3b1ab2a658e050adecb82a61086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 11/70] fix: throw exception instead of aborting when model
 methods are called out of order

---
 libsrc/geomodelgrids/serial/Model.cc | 39 +++++++++++++++++++++-------
 libsrc/geomodelgrids/serial/Model.hh |  1 +
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index a786e8b..7b89f1b 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -23,7 +23,8 @@ geomodelgrids::serial::Model::Model(void) :
     _layout(VERTEX),
     _modelCRSString(""),
     _inputCRSString("EPSG:4326"),
-    _yazimuth(0.0) {
+    _yazimuth(0.0),
+    _metadataLoaded(false) {
     _origin[0] = 0.0;
     _origin[1] = 0.0;
     _dims[0] = 0.0;
@@ -54,6 +55,7 @@ geomodelgrids::serial::Model::open(const char* filename,
                                    ModelMode mode) {
     assert(filename);
 
+    this->close();
     _h5 = std::make_unique<geomodelgrids::serial::HDF5>();
     hid_t h5Mode = H5F_ACC_RDONLY;
     switch (mode) {
@@ -98,9 +100,9 @@ geomodelgrids::serial::Model::close(void) {
         _h5->close();
     } // if
 
-    for (size_t i = 0; i < _blocks.size(); ++i) {
-        _blocks[i].reset();
-    } // for
+    _blocks.clear();
+    _crsTransformer.reset();
+    _metadataLoaded = false;
 } // close
 
 
@@ -108,9 +110,11 @@ geomodelgrids::serial::Model::close(void) {
 // Load metadata.
 void
 geomodelgrids::serial::Model::loadMetadata(void) {
-    if (!_h5) {
+    if (!_h5 || !_h5->isOpen()) {
         throw std::logic_error("Model not open. Call open() before loading metadata.");
     } // if
+    _metadataLoaded = false;
+    _crsTransformer.reset();
 
     std::ostringstream msg;
     const char* indent = "            ";
@@ -259,6 +263,7 @@ geomodelgrids::serial::Model::loadMetadata(void) {
     std::sort(_blocks.begin(), _blocks.end(), Block::compare);
 
     if (missingAttributes) { throw std::runtime_error(msg.str().c_str()); }
+    _metadataLoaded = true;
 } // loadMetadata
 
 
@@ -266,11 +271,16 @@ geomodelgrids::serial::Model::loadMetadata(void) {
 // Initialize.
 void
 geomodelgrids::serial::Model::initialize(void) {
+    _crsTransformer.reset();
+    if (!_metadataLoaded) {
+        throw std::logic_error("Model metadata not loaded. Call open() and loadMetadata() before initializing.");
+    } // if
+
     // Initialize CRS transformation
-    _crsTransformer = std::make_shared<geomodelgrids::utils::CRSTransformer>();
-    _crsTransformer->setSrc(_inputCRSString.c_str());
-    _crsTransformer->setDest(_modelCRSString.c_str());
-    _crsTransformer->initialize();
+    std::shared_ptr<geomodelgrids::utils::CRSTransformer> crsTransformer = std::make_shared<geomodelgrids::utils::CRSTransformer>();
+    crsTransformer->setSrc(_inputCRSString.c_str());
+    crsTransformer->setDest(_modelCRSString.c_str());
+    crsTransformer->initialize();
 
     if (_surfaceTop) {
         _surfaceTop->openQuery(_h5.get());
@@ -282,6 +292,7 @@ geomodelgrids::serial::Model::initialize(void) {
     for (size_t i = 0; i < numBlocks; ++i) {
         _blocks[i]->openQuery(_h5.get());
     } // for
+    _crsTransformer = crsTransformer;
 } // initialize
 
 
@@ -400,6 +411,9 @@ geomodelgrids::serial::Model::contains(const double x,
 double
 geomodelgrids::serial::Model::queryTopElevation(const double x,
                                                 const double y) {
+    if (!_crsTransformer) {
+        throw std::logic_error("Model not initialized. Call initialize() before querying.");
+    } // if
     double elevation = 0.0;
 
     if (_surfaceTop) {
@@ -430,6 +444,9 @@ geomodelgrids::serial::Model::queryTopElevation(const double x,
 double
 geomodelgrids::serial::Model::queryTopoBathyElevation(const double x,
                                                       const double y) {
+    if (!_crsTransformer) {
+        throw std::logic_error("Model not initialized. Call initialize() before querying.");
+    } // if
     double elevation = 0.0;
 
     if (_surfaceTopoBathy || _surfaceTop) {
@@ -488,7 +505,9 @@ geomodelgrids::serial::Model::_toModelXYZ(double* xModel,
                                           const double z) const {
     assert(xModel);
     assert(yModel);
-    assert(_crsTransformer);
+    if (!_crsTransformer) {
+        throw std::logic_error("Model not initialized. Call initialize() before querying.");
+    } // if
 
     double xModelCRS = 0.0;
     double yModelCRS = 0.0;
diff --git a/libsrc/geomodelgrids/serial/Model.hh b/libsrc/geomodelgrids/serial/Model.hh
index 9c6445f..67799cc 100644
--- a/libsrc/geomodelgrids/serial/Model.hh
+++ b/libsrc/geomodelgrids/serial/Model.hh
@@ -213,6 +213,7 @@ private:
     std::shared_ptr<geomodelgrids::serial::Surface> _surfaceTop; ///< Top surface of model.
     std::shared_ptr<geomodelgrids::serial::Surface> _surfaceTopoBathy; ///< Model topography/bathymetry.
     std::shared_ptr<geomodelgrids::utils::CRSTransformer> _crsTransformer; ///< Coordinate system transformer.
+    bool _metadataLoaded; ///< True if metadata of open model has been loaded.
     std::vector<std::shared_ptr<geomodelgrids::serial::Block> > _blocks; ///< Model blocks.
 
     // NOT IMPLEMENTED ----------------------------------------------------------------------------
-- 
2.43.0


From 531a8aabe57cf1c6c3bf7bbf4ba25a71052c6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 12/70] fix: report unit of each axis and reject invalid
 coordinate systems in CRSTransformer

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 57 ++++++++++++++++----
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..ffc2294 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -19,6 +19,9 @@ public:
                           std::string* zUnit,
                           const PJ* projCoordSys);
 
+            static
+            PJ* createCRS(const char* crsString);
+
             static
             void getAxisUnit(std::string* unit,
                              const PJ* projCoordSys,
@@ -91,6 +94,9 @@ geomodelgrids::utils::CRSTransformer::transform(double* destX,
                                                 const double srcZ) {
     assert(destX);
     assert(destY);
+    if (!_proj) {
+        throw std::logic_error("CRS transformation not initialized.");
+    } // if
 
     PJ_COORD xyzSrc = proj_coord(srcX, srcY, srcZ, HUGE_VAL);
     PJ_COORD xyzDest = proj_trans(_proj, PJ_FWD, xyzSrc);
@@ -113,6 +119,9 @@ geomodelgrids::utils::CRSTransformer::inverse_transform(double* srcX,
                                                         const double destZ) {
     assert(srcX);
     assert(srcY);
+    if (!_proj) {
+        throw std::logic_error("CRS transformation not initialized.");
+    } // if
 
     PJ_COORD xyzDest = proj_coord(destX, destY, destZ, HUGE_VAL);
     PJ_COORD xyzSrc = proj_trans(_proj, PJ_INV, xyzDest);
@@ -129,20 +138,13 @@ geomodelgrids::utils::CRSTransformer::inverse_transform(double* srcX,
 geomodelgrids::utils::CRSTransformer*
 geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsString) {
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* projGeo = proj_create(context, crsString);
-    if (!projGeo) {
-        std::stringstream msg;
-        msg << "Error creating CRS from '" << crsString << "'.\n"
-            << proj_errno_string(proj_errno(projGeo));
-        throw std::runtime_error(msg.str());
-    } // if
+    PJ* projGeo = _CRSTransformer::createCRS(crsString);
     PJ* projXY = proj_normalize_for_visualization(context, projGeo);
     if (!projXY) {
-        proj_destroy(projGeo);
-
         std::stringstream msg;
         msg << "Error creating normalized CRS from '" << crsString << "'.\n"
             << proj_errno_string(proj_errno(projGeo));
+        proj_destroy(projGeo);
         throw std::runtime_error(msg.str());
     }
     PJ* transform = proj_create_crs_to_crs_from_pj(context, projGeo, projXY, nullptr, nullptr);
@@ -174,7 +176,19 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = _CRSTransformer::createCRS(crsString);
+    if (proj_get_type(proj) == PJ_TYPE_COMPOUND_CRS) {
+        PJ* projHorizontal = proj_crs_get_sub_crs(context, proj, 0);
+        PJ* projVertical = proj_crs_get_sub_crs(context, proj, 1);
+        proj_destroy(proj);
+        const char* wkt = projHorizontal ? proj_as_wkt(context, projHorizontal, PJ_WKT2_2019, nullptr) : nullptr;
+        if (wkt) { getCRSUnits(xUnit, yUnit, nullptr, wkt); }
+        wkt = projVertical ? proj_as_wkt(context, projVertical, PJ_WKT2_2019, nullptr) : nullptr;
+        if (wkt) { getCRSUnits(zUnit, nullptr, nullptr, wkt); }
+        proj_destroy(projHorizontal);
+        proj_destroy(projVertical);
+        return;
+    } // if
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
@@ -199,9 +213,30 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
         proj_destroy(projCoordSys);
         return;
     }
+    proj_destroy(proj);
 }
 
 
+// ------------------------------------------------------------------------------------------------
+// Create CRS from string.
+PJ*
+geomodelgrids::utils::_CRSTransformer::createCRS(const char* crsString) {
+    std::string definition(crsString);
+    if ((definition.find("proj=") != std::string::npos) && (definition.find("type=crs") == std::string::npos)) {
+        definition += " +type=crs"; // Same as done by proj_create_crs_to_crs().
+    } // if
+    PJ* proj = proj_create(PJ_DEFAULT_CTX, definition.c_str());
+    if (!proj || !proj_is_crs(proj)) {
+        proj_destroy(proj);
+        std::stringstream msg;
+        msg << "Error creating CRS from '" << crsString << "'.\n"
+            << proj_context_errno_string(PJ_DEFAULT_CTX, proj_context_errno(PJ_DEFAULT_CTX));
+        throw std::runtime_error(msg.str());
+    } // if
+    return proj;
+} // createCRS
+
+
 // ------------------------------------------------------------------------------------------------
 // Get units for CRS.
 void
@@ -232,7 +267,7 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From a61e1cf8fcffba8d8e61846e94add171c02d55a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 13/70] fix: read names of datasets longer than 255 characters

---
 libsrc/geomodelgrids/serial/HDF5.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 5201ec6..47b8660 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -273,11 +273,14 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
 
         names->resize(gsize);
         for (int i = 0, index = 0; i < gsize; ++i) {
-            char buffer[256];
             ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);
+                                                 nullptr, 0, H5P_DEFAULT);
             if (namelen <= 0) { throw std::runtime_error("Could not get name of dataset."); }
-            (*names)[index++] = buffer;
+            std::vector<char> buffer(namelen+1);
+            namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
+                                         buffer.data(), buffer.size(), H5P_DEFAULT);
+            if (namelen <= 0) { throw std::runtime_error("Could not get name of dataset."); }
+            (*names)[index++] = buffer.data();
         } // for
 
     } catch (const std::exception& err) {
-- 
2.43.0


From c856434c7c414c4baa6473552b9b8ea0aa2cd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 14/70] fix: ignore padding of fixed length strings in model
 file

---
 libsrc/geomodelgrids/serial/HDF5.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 47b8660..41f8b6e 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -30,6 +30,7 @@ struct geomodelgrids::serial::_HDF5Access {
     hid_t dataspace;
     hid_t attribute;
     hid_t datatype;
+    hid_t memtype;
 
     _HDF5Access(void) :
         object(HDF5::H5_NULL),
@@ -37,7 +38,8 @@ struct geomodelgrids::serial::_HDF5Access {
         dataset(HDF5::H5_NULL),
         dataspace(HDF5::H5_NULL),
         attribute(HDF5::H5_NULL),
-        datatype(HDF5::H5_NULL) {}
+        datatype(HDF5::H5_NULL),
+        memtype(HDF5::H5_NULL) {}
 
 
     ~_HDF5Access(void) {
@@ -47,6 +49,7 @@ struct geomodelgrids::serial::_HDF5Access {
         if (dataspace >= 0) { H5Sclose(dataspace); }
         if (attribute >= 0) { H5Aclose(attribute); }
         if (datatype >= 0) { H5Tclose(datatype); }
+        if (memtype >= 0) { H5Tclose(memtype); }
     } // destructor
 
 };
@@ -412,7 +415,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             buffer = new char[stringLength+1];assert(buffer);
             buffer[stringLength] = '\0';
 
-            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
+            // Null terminate string in memory to remove any padding.
+            h5access.memtype = H5Tcopy(h5access.datatype);
+            herr_t err = H5Tset_size(h5access.memtype, stringLength+1);
+            if (err >= 0) { err = H5Tset_strpad(h5access.memtype, H5T_STR_NULLTERM); }
+            if (err >= 0) { err = H5Aread(h5access.attribute, h5access.memtype, buffer); }
             if (err < 0) { throw std::runtime_error("Could not read"); }
             value = buffer;
 
@@ -469,13 +476,17 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
-            hsize_t stringLength = H5Tget_size(h5access.datatype);
+            // Null terminate strings in memory to remove any padding.
+            hsize_t stringLength = H5Tget_size(h5access.datatype) + 1;
             buffer[0] = new char[numStrings * stringLength];assert(buffer[0]);
             for (size_t i = 1; i < numStrings; ++i) {
                 buffer[i] = buffer[0] + i*stringLength;
             } // for
 
-            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer[0]);
+            h5access.memtype = H5Tcopy(h5access.datatype);
+            herr_t err = H5Tset_size(h5access.memtype, stringLength);
+            if (err >= 0) { err = H5Tset_strpad(h5access.memtype, H5T_STR_NULLTERM); }
+            if (err >= 0) { err = H5Aread(h5access.attribute, h5access.memtype, buffer[0]); }
             if (err < 0) { throw std::runtime_error("Could not read"); }
 
             values->resize(numStrings);
-- 
2.43.0


From 5ed7482f399a54c287982200af77cfc44f413660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 15/70] fix: query every point in points file and report
 malformed points

---
 libsrc/geomodelgrids/apps/Query.cc     | 13 +++++++++++--
 libsrc/geomodelgrids/apps/QueryElev.cc | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..0773e0b 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -80,12 +80,21 @@ geomodelgrids::apps::Query::run(int argc,
     const size_t numQueryValues = _valueNames.size();
     std::vector<double> values(numQueryValues);
     sout << std::scientific << std::setprecision(_Query::precision);
+    size_t numPoints = 0;
     while (true) {
+        sin >> std::ws;
+        if (sin.eof()) {
+            break;
+        } // if
+
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
-            break;
+        if (sin.fail()) {
+            std::ostringstream msg;
+            msg << "Could not read coordinates of point " << numPoints+1 << " in points file '" << _pointsFilename << "'.";
+            throw std::runtime_error(msg.str().c_str());
         } // if
+        ++numPoints;
 
         query.query(&values[0], srcX, srcY, srcZ);
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..2ea2b2a 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -73,12 +73,21 @@ geomodelgrids::apps::QueryElev::run(int argc,
 
     sout << _createOutputHeader(argc, argv);
     sout << std::scientific << std::setprecision(_QueryElev::precision);
+    size_t numPoints = 0;
     while (true) {
+        sin >> std::ws;
+        if (sin.eof()) {
+            break;
+        } // if
+
         double srcX, srcY;
         sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
-            break;
+        if (sin.fail()) {
+            std::ostringstream msg;
+            msg << "Could not read coordinates of point " << numPoints+1 << " in points file '" << _pointsFilename << "'.";
+            throw std::runtime_error(msg.str().c_str());
         } // if
+        ++numPoints;
 
         const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
 
-- 
2.43.0


From 73851a7dac36fdbc856f175fac3c9d9403e7bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 16/70] fix: report failure to write output file in query
 applications

---
 libsrc/geomodelgrids/apps/Query.cc     | 6 ++++++
 libsrc/geomodelgrids/apps/QueryElev.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 0773e0b..1222659 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -106,6 +106,12 @@ geomodelgrids::apps::Query::run(int argc,
         } // for
         sout << "\n";
     } // while
+    sout.close();
+    if (!sout.good()) {
+        std::ostringstream msg;
+        msg << "Could not write output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 2ea2b2a..e1fc56b 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -96,6 +96,12 @@ geomodelgrids::apps::QueryElev::run(int argc,
              << std::setw(_QueryElev::cwidth) << elev
              << "\n";
     } // while
+    sout.close();
+    if (!sout.good()) {
+        std::ostringstream msg;
+        msg << "Could not write output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
-- 
2.43.0


From ef67be529d7238b17647a645ca9234c49247a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 17/70] fix: honor surface given for squashing regardless of
 argument order and reject unknown surfaces

---
 libsrc/geomodelgrids/apps/Query.cc     | 19 ++++++++++++++-----
 libsrc/geomodelgrids/apps/QueryElev.cc | 13 +++++++++----
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 1222659..93e6dd9 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -137,6 +137,8 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
         {0, 0, 0, 0}
     };
 
+    bool hasSquashSurface = false;
+    bool hasSquashMinElev = false;
     while (true) {
         // extern char* optarg;
         const char c = getopt_long(argc, argv, "hv:s:r:p:c:o:l:m:", options, nullptr);
@@ -155,9 +157,7 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
             break;
         } // 'v'
         case 's': {
-            if (geomodelgrids::serial::Query::SQUASH_NONE == _squash) {
-                _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
-            } // if
+            hasSquashMinElev = true;
             _squashMinElev = std::stod(optarg);
             break;
         } // 's'
@@ -167,9 +167,15 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
                 _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
             } else if (std::string("topography_bathymetry") == surface) {
                 _squash = geomodelgrids::serial::Query::SQUASH_TOPOGRAPHY_BATHYMETRY;
-            } else {
+            } else if (std::string("none") == surface) {
                 _squash = geomodelgrids::serial::Query::SQUASH_NONE;
-            }
+            } else {
+                std::ostringstream msg;
+                msg << "Unknown surface '" << surface << "' for squashing. "
+                    << "Use --squash-surface=none|top_surface|topography_bathymetry.";
+                throw std::runtime_error(msg.str().c_str());
+            } // if/else
+            hasSquashSurface = true;
             break;
         } // 's'
         case 'p': {
@@ -207,6 +213,9 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
         } // ?
         } // switch
     } // while
+    if (hasSquashMinElev && !hasSquashSurface) {
+        _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
+    } // if
 
     if (1 == argc) {
         _showHelp = true;
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index e1fc56b..cd1a3e1 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -159,11 +159,16 @@ geomodelgrids::apps::QueryElev::_parseArgs(int argc,
             break;
         } // 'm'
         case 's': {
-            _useTopoBathy = false;
-            std::string surface = optarg;
-            if (surface == std::string("topography_bathymetry")) {
+            const std::string& surface = optarg;
+            if (std::string("topography_bathymetry") == surface) {
                 _useTopoBathy = true;
-            } // if
+            } else if (std::string("top_surface") == surface) {
+                _useTopoBathy = false;
+            } else {
+                std::ostringstream msg;
+                msg << "Unknown surface '" << surface << "'. Use --surface=top_surface|topography_bathymetry.";
+                throw std::runtime_error(msg.str().c_str());
+            } // if/else
             break;
         } // 'm'
         case '?': {
-- 
2.43.0


From 8aff32e285bfe73b8b82eb164d9744f1b4fdf961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 18/70] fix: include maximum depth in borehole independent of
 roundoff

---
 libsrc/geomodelgrids/apps/Borehole.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..57889a1 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -68,7 +68,8 @@ geomodelgrids::apps::Borehole::run(int argc,
     } else if (groundSurf != 0.0) {
         groundSurf += groundOffset;
     } // if
-    const size_t numPoints = size_t(1 + _maxDepth / _dz);
+    const double tolerance = 1.0e-6; // Relative to resolution
+    const size_t numPoints = size_t(1 + tolerance + _maxDepth / _dz);
 
     std::ofstream sout(_outputFilename);
     if (!sout.is_open() && !sout.good()) {
-- 
2.43.0


From b702291c4877695c714dc4a654ca8ac6f88119e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 19/70] fix: reject malformed and invalid numbers in arguments
 of query and borehole applications

---
 libsrc/geomodelgrids/apps/Borehole.cc | 54 ++++++++++++++++++++++++---
 libsrc/geomodelgrids/apps/Query.cc    | 28 +++++++++++++-
 2 files changed, 76 insertions(+), 6 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 57889a1..1bc0549 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -6,8 +6,12 @@
 #include "geomodelgrids/utils/constants.hh" // USES NODATA_VALUE
 #include "geomodelgrids/utils/ErrorHandler.hh" // USES ErrorHandler
 
+#include <cmath> // USES std::isfinite()
 #include <getopt.h> // USES getopt_long()
 #include <iomanip>
+#include <stdexcept> // USES std::runtime_error
+#include <string> // USES std::stod()
+#include <vector> // USES std::vector
 #include <fstream> // USES std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
 #include <cassert> // USES assert()
@@ -17,6 +21,31 @@ namespace geomodelgrids {
     namespace apps {
         namespace _Borehole {
             static const int cwidth = 14;
+
+            /** Parse number given for command line argument.
+             *
+             * @param[in] option Name of command line argument.
+             * @param[in] text Text to parse.
+             *
+             * @returns Value of number.
+             */
+            static double parseNumber(const char* option,
+                                      const std::string& text) {
+                size_t numParsed = 0;
+                double value = 0.0;
+                try {
+                    value = std::stod(text, &numParsed);
+                } catch (const std::logic_error&) {
+                    numParsed = 0;
+                } // try/catch
+                if (!numParsed || (std::string::npos != text.find_first_not_of(" \t", numParsed)) || !std::isfinite(value)) {
+                    std::ostringstream msg;
+                    msg << "Could not parse '" << text << "' as a number for command line argument --" << option << ".";
+                    throw std::runtime_error(msg.str().c_str());
+                } // if
+                return value;
+            } // parseNumber
+
         } // _Borehole
     } // apps
 } // geomodelgrids
@@ -137,20 +166,27 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             break;
         } // 'v'
         case 'd': {
-            _maxDepth = atof(optarg);
+            _maxDepth = _Borehole::parseNumber("max-depth", optarg);
             break;
         } // 'd'
         case 'p': {
             std::istringstream tokenStream(optarg);
             std::string token;
-            int index = 0;
-            while (std::getline(tokenStream, token, ',') && index < 2) {
-                _location[index++] = std::stod(token);
+            std::vector<double> coordinates;
+            while (std::getline(tokenStream, token, ',')) {
+                coordinates.push_back(_Borehole::parseNumber("location", token));
             } // while
+            if (2 != coordinates.size()) {
+                std::ostringstream msg;
+                msg << "Expected 2 coordinates for location, got '" << optarg << "'. Use --location=X,Y";
+                throw std::runtime_error(msg.str().c_str());
+            } // if
+            _location[0] = coordinates[0];
+            _location[1] = coordinates[1];
             break;
         } // 'o'
         case 'r': {
-            _dz = atof(optarg);
+            _dz = _Borehole::parseNumber("dz", optarg);
             break;
         } // 'r'
         case 'c': {
@@ -207,6 +243,14 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             msg << "    - Missing boreole location. Use --location=X,Y\n";
             optionsOkay = false;
         } // if
+        if (_maxDepth < 0.0) {
+            msg << "    - Maximum depth (" << _maxDepth << ") must not be negative.\n";
+            optionsOkay = false;
+        } // if
+        if (_dz <= 0.0) {
+            msg << "    - Vertical resolution (" << _dz << ") must be positive.\n";
+            optionsOkay = false;
+        } // if
 
         if (!optionsOkay) {
             throw std::runtime_error(std::string("Missing required command line arguments:\n")+ msg.str());
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 93e6dd9..b19fb6e 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -5,6 +5,7 @@
 #include "geomodelgrids/serial/Query.hh" // USES Query
 #include "geomodelgrids/utils/ErrorHandler.hh" // USES ErrorHandler
 
+#include <cmath> // USES std::isfinite()
 #include <getopt.h> // USES getopt_long()
 #include <iomanip>
 #include <fstream> // USES std::ifstream, std::ofstream
@@ -17,6 +18,31 @@ namespace geomodelgrids {
         namespace _Query {
             static const int cwidth = 14;
             static const int precision = 6;
+
+            /** Parse number given for command line argument.
+             *
+             * @param[in] option Name of command line argument.
+             * @param[in] text Text to parse.
+             *
+             * @returns Value of number.
+             */
+            static double parseNumber(const char* option,
+                                      const std::string& text) {
+                size_t numParsed = 0;
+                double value = 0.0;
+                try {
+                    value = std::stod(text, &numParsed);
+                } catch (const std::logic_error&) {
+                    numParsed = 0;
+                } // try/catch
+                if (!numParsed || (std::string::npos != text.find_first_not_of(" \t", numParsed)) || !std::isfinite(value)) {
+                    std::ostringstream msg;
+                    msg << "Could not parse '" << text << "' as a number for command line argument --" << option << ".";
+                    throw std::runtime_error(msg.str().c_str());
+                } // if
+                return value;
+            } // parseNumber
+
         } // _Query
     } // apps
 } // geomodelgrids
@@ -158,7 +184,7 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
         } // 'v'
         case 's': {
             hasSquashMinElev = true;
-            _squashMinElev = std::stod(optarg);
+            _squashMinElev = _Query::parseNumber("squash-min-elev", optarg);
             break;
         } // 's'
         case 'r': {
-- 
2.43.0


From 0b87ab202f9c3ba5bdf1d5499d39d57109710557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 20/70] fix: report failure to write output file in borehole
 application

---
 libsrc/geomodelgrids/apps/Borehole.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 1bc0549..da06604 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -123,6 +123,12 @@ geomodelgrids::apps::Borehole::run(int argc,
         } // for
         sout << "\n";
     } // while
+    sout.close();
+    if (!sout.good()) {
+        std::ostringstream msg;
+        msg << "Could not write output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
-- 
2.43.0


From 68c1eb08b28e240c30752d24eba050f5909a0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:03 +0000
Subject: [PATCH 21/70] fix: reject unexpected positional arguments in
 applications

---
 libsrc/geomodelgrids/apps/Borehole.cc   | 5 +++++
 libsrc/geomodelgrids/apps/Info.cc       | 5 +++++
 libsrc/geomodelgrids/apps/Isosurface.cc | 5 +++++
 libsrc/geomodelgrids/apps/Query.cc      | 5 +++++
 libsrc/geomodelgrids/apps/QueryElev.cc  | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index da06604..a9cf7aa 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -226,6 +226,11 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
         } // ?
         } // switch
     } // while
+    if (optind < argc) {
+        std::ostringstream msg;
+        msg << "Unexpected command line argument '" << argv[optind] << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     if (1 == argc) {
         _showHelp = true;
diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..b805222 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -178,6 +178,11 @@ geomodelgrids::apps::Info::_parseArgs(int argc,
         } // ?
         } // switch
     } // while
+    if (optind < argc) {
+        std::ostringstream msg;
+        msg << "Unexpected command line argument '" << argv[optind] << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     if (!optionsOk) {
         _showHelp = true;
     } // if
diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..4644606 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -353,6 +353,11 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         } // ?
         } // switch
     } // while
+    if (optind < argc) {
+        std::ostringstream msg;
+        msg << "Unexpected command line argument '" << argv[optind] << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     if (1 == argc) {
         _showHelp = true;
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index b19fb6e..da877d9 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -239,6 +239,11 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
         } // ?
         } // switch
     } // while
+    if (optind < argc) {
+        std::ostringstream msg;
+        msg << "Unexpected command line argument '" << argv[optind] << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     if (hasSquashMinElev && !hasSquashSurface) {
         _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
     } // if
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index cd1a3e1..095629e 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -181,6 +181,11 @@ geomodelgrids::apps::QueryElev::_parseArgs(int argc,
         } // ?
         } // switch
     } // while
+    if (optind < argc) {
+        std::ostringstream msg;
+        msg << "Unexpected command line argument '" << argv[optind] << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     if (1 == argc) {
         _showHelp = true;
-- 
2.43.0


From 828d1176713ba9f033cf6944ede2832ad165b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 22/70] fix: reject malformed and invalid values of isosurface
 arguments

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 67 +++++++++++++++++++------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 4644606..b21e2d9 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -20,6 +20,32 @@
 
 namespace geomodelgrids {
     namespace apps {
+        namespace _Isosurface {
+            /** Parse number given for command line argument.
+             *
+             * @param[in] option Name of command line argument.
+             * @param[in] text Text to parse.
+             *
+             * @returns Value of number.
+             */
+            static double parseNumber(const char* option,
+                                      const std::string& text) {
+                size_t numParsed = 0;
+                double value = 0.0;
+                try {
+                    value = std::stod(text, &numParsed);
+                } catch (const std::logic_error&) {
+                    numParsed = 0;
+                } // try/catch
+                if (!numParsed || (std::string::npos != text.find_first_not_of(" \t", numParsed)) || !std::isfinite(value)) {
+                    std::ostringstream msg;
+                    msg << "Could not parse '" << text << "' as a number for command line argument --" << option << ".";
+                    throw std::runtime_error(msg.str().c_str());
+                } // if
+                return value;
+            } // parseNumber
+        } // _Isosurface
+
         // ----------------------------------------------------------------------------------------
         class Isosurfacer {
 public:
@@ -267,16 +293,15 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         case 'b': {
             std::istringstream tokenStream(optarg);
             std::string token;
-            int index = 0;
-            double bbox[4] = {
-                geomodelgrids::NODATA_VALUE,
-                geomodelgrids::NODATA_VALUE,
-                geomodelgrids::NODATA_VALUE,
-                geomodelgrids::NODATA_VALUE,
-            };
-            while (std::getline(tokenStream, token, ',') && index < 4) {
-                bbox[index++] = std::stod(token);
+            std::vector<double> bbox;
+            while (std::getline(tokenStream, token, ',')) {
+                bbox.push_back(_Isosurface::parseNumber("bbox", token));
             } // while
+            if (4 != bbox.size()) {
+                std::ostringstream msg;
+                msg << "Expected 4 values for bounding box, got '" << optarg << "'. Use --bbox=XMIN,XMAX,YMIN,YMAX";
+                throw std::runtime_error(msg.str().c_str());
+            } // if
             _minX = bbox[0];
             _maxX = bbox[1];
             _minY = bbox[2];
@@ -284,11 +309,11 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             break;
         } // 'b'
         case 'r': {
-            _horizRes = atof(optarg);
+            _horizRes = _Isosurface::parseNumber("hresolution", optarg);
             break;
         } // 'r'
         case 'v': {
-            _vertRes = atof(optarg);
+            _vertRes = _Isosurface::parseNumber("vresolution", optarg);
             break;
         } // 'v'
         case 'i': {
@@ -298,10 +323,13 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             while (std::getline(tokenStream, token, ',')) {
                 values.push_back(token);
             } // while
-            if (values.size() == 2) {
-                Isosurfacer::isosurface_t isosurface(values[0], atof(values[1].c_str()));
-                _isosurfaces.push_back(isosurface);
+            if (values.size() != 2) {
+                std::ostringstream msg;
+                msg << "Expected name and value for isosurface, got '" << optarg << "'. Use --isosurface=NAME,VALUE";
+                throw std::runtime_error(msg.str().c_str());
             } // if
+            Isosurfacer::isosurface_t isosurface(values[0], _Isosurface::parseNumber("isosurface", values[1]));
+            _isosurfaces.push_back(isosurface);
             break;
         } // 'i'
         case 's': {
@@ -315,11 +343,17 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             break;
         } // 's'
         case 'd': {
-            _maxDepth = atof(optarg);
+            _maxDepth = _Isosurface::parseNumber("max-depth", optarg);
             break;
         } // 'd'
         case 'n': {
-            _numSearchPoints = atoi(optarg);
+            const double value = _Isosurface::parseNumber("num-search-points", optarg);
+            if ((value != floor(value)) || (fabs(value) > 1.0e+9)) {
+                std::ostringstream msg;
+                msg << "Number of search points (" << optarg << ") must be an integer.";
+                throw std::runtime_error(msg.str().c_str());
+            } // if
+            _numSearchPoints = int(value);
             break;
         } // 'n'
         case 'm': {
@@ -372,6 +406,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         } // if
         if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
-- 
2.43.0


From b54795f445cabcb4f9abf9b301f6f7e18217b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 23/70] fix: refine isosurface search to requested vertical
 resolution

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index b21e2d9..ba832a4 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -428,8 +428,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) {
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -510,7 +510,9 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
+    // Each level reduces the search interval by a factor of the number of search points minus 1.
+    const double numLevels = ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints-1));
+    _numLevels = numLevels > 1.0 ? size_t(numLevels) : 1;
     assert(_numLevels >= 1);
 
     const size_t numValues = _app._isosurfaces.size();
-- 
2.43.0


From dd16e9823b1e67da2310eb2a49dab80d53b6695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 24/70] fix: do not divide by zero for uniform values equal to
 isosurface

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index ba832a4..c045747 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -580,9 +580,13 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         const double vBot = _vbuffer[iValue];
 
         if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
-            const double a = (vTop-vBot) / (zTop-zBot);
-            const double b = vTop - a*zTop;
-            values[iValue] = topElev - (vTarget - b) / a;
+            if (vTop != vBot) {
+                const double a = (vTop-vBot) / (zTop-zBot);
+                const double b = vTop - a*zTop;
+                values[iValue] = topElev - (vTarget - b) / a;
+            } else {
+                values[iValue] = topElev - zTop;
+            } // if/else
         } else if (vTarget < vTop) {
             values[iValue] = 0.0;
         } else {
-- 
2.43.0


From c7dbf4c749f60da06b8d3128206e660aa67c5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 25/70] fix: find deepest isosurface above values that are too
 small or missing

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index c045747..c6e638d 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -672,14 +672,17 @@ geomodelgrids::apps::LineSearchUp::search(const double zTop,
                                           const double vTarget,
                                           const size_t iValue) {
     size_t iTop = 0;
+    _query->query(&_vbuffer[0], _x, _y, zBot);
+    double vBelow = _vbuffer[iValue];
     for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
         const double z = zBot + iPt * dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
-        if (v < vTarget) {
+        if ((v < vTarget) && (vBelow >= vTarget)) {
             iTop = _numSearchPoints - iPt - 1;
             break;
         } // if
+        vBelow = v;
 
     } // for
     return iTop;
-- 
2.43.0


From e34f94708c54abdaea9a094fcc18d7cc0ae08ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 26/70] fix: compute isosurface at centers of pixels

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index c6e638d..90c0c67 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -201,6 +201,11 @@ geomodelgrids::apps::Isosurface::run(int argc,
 
         const size_t numX = size_t((_maxX + 0.5*_horizRes - _minX) / _horizRes);
         const size_t numY = size_t((_maxY + 0.5*_horizRes - _minY) / _horizRes);
+        if (!numX || !numY) {
+            throw std::runtime_error("Bounding box for isosurface is smaller than horizontal resolution.");
+        } // if
+        const double pixelX = (_maxX - _minX) / numX;
+        const double pixelY = (_maxY - _minY) / numY;
         const size_t numIsosurfaces = _isosurfaces.size();
 
         std::vector<std::string> bandLabels(numIsosurfaces);
@@ -224,12 +229,12 @@ geomodelgrids::apps::Isosurface::run(int argc,
         float* buffer = writer.getBands();
         for (size_t iY = 0, iPt = 0; iY < numY; ++iY) {
             const size_t row = numY - iY - 1;
-            const double y = _minY + (iY + 0.5) * _horizRes;
+            const double y = _minY + (iY + 0.5) * pixelY;
             double xCRS, yCRS;
 
             for (size_t iX = 0; iX < numX; ++iX, ++iPt) {
                 const size_t col = iX;
-                const double x = _minX + (iX + 0.5) * _horizRes;
+                const double x = _minX + (iX + 0.5) * pixelX;
 
                 toXYOrder->inverse_transform(&xCRS, &yCRS, nullptr, x, y, 0.0);
                 isosurfacer.query(&values[0], xCRS, yCRS);
-- 
2.43.0


From 2d0665359868f3ffe091c93aa1999705cb96bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 27/70] fix: return minimum y of bounding box of raster images

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..6ecc2de 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -148,7 +148,7 @@ geomodelgrids::utils::GeoTiff::getBBox(double* minX,
 
     const double _maxY = _transform[3];
     const double dy = _transform[5];
-    if (minY) { *minY = _maxY - dy * _numRows; }
+    if (minY) { *minY = _maxY + dy * _numRows; }
     if (maxY) { *maxY = _maxY; }
 }
 
-- 
2.43.0


From bb84c1741fb6da02984f04a7f6c4d20f2dd5e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 28/70] fix: do not unload GDAL drivers when closing raster
 image

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 6ecc2de..3e2b549 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -276,10 +276,7 @@ geomodelgrids::utils::GeoTiff::close(void) {
         GDALClose(_dataset);
         _dataset = nullptr;
     } // if
-    if (_driver) {
-        GDALDestroyDriverManager();
-        _driver = nullptr;
-    } // if
+    _driver = nullptr;
 }
 
 
-- 
2.43.0


From d45014e693dcbd800a4afe7bdeb6d63913c49368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 29/70] fix: write coordinate system of raster image in all
 supported formats and reject invalid ones

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3e2b549..11146fe 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -177,6 +177,26 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
         throw std::runtime_error("Could not get GDAL GeoTiff driver.");
     } // if
 
+    // Get projection
+    PJ_CONTEXT* context = nullptr;
+    std::string definition = _crs;
+    if ((definition.find("proj=") != std::string::npos) && (definition.find("type=crs") == std::string::npos)) {
+        definition += " +type=crs";
+    } // if
+    PJ* proj = proj_create(context, definition.c_str());
+    const char* wkt = proj ? proj_as_wkt(context, proj, PJ_WKT1_GDAL, nullptr) : nullptr;
+    if (proj && !wkt) { // Not all coordinate systems can be represented using WKT1.
+        wkt = proj_as_wkt(context, proj, PJ_WKT2_2019, nullptr);
+    } // if
+    const std::string projection = wkt ? wkt : "";
+    const bool isCRS = proj && proj_is_crs(proj);
+    proj_destroy(proj);proj = nullptr;
+    if (projection.empty() || !isCRS) {
+        std::ostringstream msg;
+        msg << "Could not create coordinate system '" << _crs << "' for GeoTiff file '" << filename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     char** options = nullptr;
     options = CSLSetNameValue(options, "COMPRESS", "DEFLATE");
     _dataset = _driver->Create(filename, _numCols, _numRows, _numBands, GDT_Float32, options);
@@ -188,10 +208,7 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
     } // if
 
     // Set projection
-    PJ_CONTEXT* context = nullptr;
-    PJ* proj = proj_create(context, _crs.c_str());
-    _dataset->SetProjection(proj_as_wkt(context, proj, PJ_WKT1_GDAL, options));
-    proj_destroy(proj);proj = nullptr;
+    _dataset->SetProjection(projection.c_str());
 
     // Set geographic transformation.
     _dataset->SetGeoTransform(_transform);
-- 
2.43.0


From 31074eb3b26c8c1eb7d68e53144b97f4930d6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 30/70] fix: report misuse of raster images

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 11146fe..6e748dc 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -37,6 +37,9 @@ geomodelgrids::utils::GeoTiff::setNumRows(const size_t numRows) {
     if (0 == numRows) {
         throw std::invalid_argument("Number of rows in image must be positive.");
     } // if
+    if (_numRows != numRows) {
+        delete[] _buffer;_buffer = nullptr; // Discard buffer that does not match size.
+    } // if
     _numRows = numRows;
 }
 
@@ -54,6 +57,9 @@ geomodelgrids::utils::GeoTiff::setNumCols(const size_t numCols) {
     if (0 == numCols) {
         throw std::invalid_argument("Number of columns in image must be positive.");
     } // if
+    if (_numCols != numCols) {
+        delete[] _buffer;_buffer = nullptr; // Discard buffer that does not match size.
+    } // if
     _numCols = numCols;
 }
 
@@ -71,6 +77,9 @@ geomodelgrids::utils::GeoTiff::setNumBands(const size_t numBands) {
     if (0 == numBands) {
         throw std::invalid_argument("Number of raster bands in image must be positive.");
     } // if
+    if (_numBands != numBands) {
+        delete[] _buffer;_buffer = nullptr; // Discard buffer that does not match size.
+    } // if
     _numBands = numBands;
 }
 
@@ -172,6 +181,13 @@ geomodelgrids::utils::GeoTiff::getBands(void) {
 void
 geomodelgrids::utils::GeoTiff::create(const char* filename) {
     this->close();
+    if (_bandLabels.size() != _numBands) {
+        std::ostringstream msg;
+        msg << "Number of raster band labels (" << _bandLabels.size() << ") must match the number of raster bands ("
+            << _numBands << ").";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     _driver = GetGDALDriverManager()->GetDriverByName("GTiff");
     if (!_driver) {
         throw std::runtime_error("Could not get GDAL GeoTiff driver.");
@@ -227,6 +243,10 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::utils::GeoTiff::write(void) {
+    if (!_dataset || !_buffer) {
+        throw std::logic_error("Must call create() and fill buffer from getBands() before calling write().");
+    } // if
+
     CPLErr err = _dataset->RasterIO(GF_Write, 0, 0, _numCols, _numRows, _buffer,
                                     _numCols, _numRows, GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
     if (err != CE_None) { throw std::runtime_error("Error while writing row of raster bands."); }
-- 
2.43.0


From 9ef86e4a2fb24b465efa663e56caddc15079ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 31/70] fix: report failure to write raster image

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 6e748dc..26b495f 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -250,6 +250,13 @@ geomodelgrids::utils::GeoTiff::write(void) {
     CPLErr err = _dataset->RasterIO(GF_Write, 0, 0, _numCols, _numRows, _buffer,
                                     _numCols, _numRows, GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
     if (err != CE_None) { throw std::runtime_error("Error while writing row of raster bands."); }
+
+    // Writing data to disk may be deferred until the cache is flushed.
+    CPLErrorReset();
+    _dataset->FlushCache();
+    if (CPLGetLastErrorType() >= CE_Failure) {
+        throw std::runtime_error("Error while writing raster bands to file.");
+    } // if
 }
 
 
-- 
2.43.0


From 0d7b0bfb185e270dcc410d3c5ef196ca6b235567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 32/70] fix: geomodelgrids_info with variable resolution grids
 and extents of surfaces

---
 libsrc/geomodelgrids/apps/Info.cc | 68 ++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index b805222..bef2ec6 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -40,6 +40,15 @@ namespace geomodelgrids {
 
             const double* computeBoundingBox(const geomodelgrids::serial::Model* model);
 
+            /// Get extent of grid along axis with variable (given coordinates) or uniform resolution.
+            double getExtent(const double* coordinates,
+                             const double resolution,
+                             const size_t numPoints);
+
+            /// Get string with resolution along axis.
+            std::string getResolution(const double* coordinates,
+                                      const double resolution);
+
         } // _Info
     } // apps
 } // geomodelgrids
@@ -330,8 +339,8 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = surfaceTop->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << "\n";
         std::cout << _Info::indent(3) << "Resolution: "
-                  << "x=" << surfaceTop->getResolutionX()
-                  << ", y=" << surfaceTop->getResolutionY() << "\n";
+                  << "x=" << _Info::getResolution(surfaceTop->getCoordinatesX(), surfaceTop->getResolutionX())
+                  << ", y=" << _Info::getResolution(surfaceTop->getCoordinatesY(), surfaceTop->getResolutionY()) << "\n";
     } else {
         std::cout << _Info::indent(3) << "None\n";
     } // if/else
@@ -342,8 +351,8 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = surfaceTopoBathy->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << "\n";
         std::cout << _Info::indent(3) << "Resolution: "
-                  << "x=" << surfaceTopoBathy->getResolutionX()
-                  << ", y=" << surfaceTopoBathy->getResolutionY() << "\n";
+                  << "x=" << _Info::getResolution(surfaceTopoBathy->getCoordinatesX(), surfaceTopoBathy->getResolutionX())
+                  << ", y=" << _Info::getResolution(surfaceTopoBathy->getCoordinatesY(), surfaceTopoBathy->getResolutionY()) << "\n";
     } else {
         std::cout << _Info::indent(3) << "None\n";
     } // if/else
@@ -355,17 +364,17 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         assert(blocks[i]);
         std::cout << _Info::indent(2) << "Block '" << blocks[i]->getName() << "'\n";
         std::cout << _Info::indent(3) << "Resolution: "
-                  << "x=" << blocks[i]->getResolutionX()
-                  << ", y=" << blocks[i]->getResolutionY()
-                  << ", z=" << blocks[i]->getResolutionZ() << "\n";
+                  << "x=" << _Info::getResolution(blocks[i]->getCoordinatesX(), blocks[i]->getResolutionX())
+                  << ", y=" << _Info::getResolution(blocks[i]->getCoordinatesY(), blocks[i]->getResolutionY())
+                  << ", z=" << _Info::getResolution(blocks[i]->getCoordinatesZ(), blocks[i]->getResolutionZ()) << "\n";
         std::cout << _Info::indent(3) << "Elevation of top of block in logical space: " << blocks[i]->getZTop() << "\n";
 
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double dim_x = _Info::getExtent(blocks[i]->getCoordinatesX(), blocks[i]->getResolutionX(), dims[0]);
+        const double dim_y = _Info::getExtent(blocks[i]->getCoordinatesY(), blocks[i]->getResolutionY(), dims[1]);
+        const double dim_z = _Info::getExtent(blocks[i]->getCoordinatesZ(), blocks[i]->getResolutionZ(), dims[2]);
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
@@ -490,14 +499,16 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
     const size_t* numTopo = surface->getDims();
+    const double* coordinates[2] = { surface->getCoordinatesX(), surface->getCoordinatesY() };
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const double extent = _Info::getExtent(coordinates[iDim], resolution[iDim], numTopo[iDim]);
+        if (!(fabs(extent - dimsDomain[iDim]) <= tolerance * fabs(dimsDomain[iDim]))) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
-                      << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
+                      << " dimension (surface=" << extent << ", domain=" << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
     } // for
@@ -521,16 +532,19 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
     const size_t* numBlock = block->getDims();
+    const double* coordinates[2] = { block->getCoordinatesX(), block->getCoordinatesY() };
 
     const double tolerance = 1.0e-6;
 
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const double extent = _Info::getExtent(coordinates[iDim], resolution[iDim], numBlock[iDim]);
+        if (!(fabs(extent - dimsDomain[iDim]) <= tolerance * fabs(dimsDomain[iDim]))) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
-                      << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
+                      << dimLabel[iDim] << " dimension (block="
+                      << (coordinates[iDim] ? extent : resolution[iDim]*numBlock[iDim]) << ", domain="
                       << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
@@ -645,4 +659,30 @@ geomodelgrids::apps::_Info::computeBoundingBox(const geomodelgrids::serial::Mode
 }
 
 
+// ------------------------------------------------------------------------------------------------
+double
+geomodelgrids::apps::_Info::getExtent(const double* coordinates,
+                                      const double resolution,
+                                      const size_t numPoints) {
+    if (!numPoints) {
+        return 0.0;
+    } // if
+    return coordinates ? fabs(coordinates[numPoints-1] - coordinates[0]) : resolution * (numPoints-1);
+} // getExtent
+
+
+// ------------------------------------------------------------------------------------------------
+std::string
+geomodelgrids::apps::_Info::getResolution(const double* coordinates,
+                                          const double resolution) {
+    if (coordinates) {
+        return "variable";
+    } // if
+    std::ostringstream buffer;
+    buffer.precision(std::cout.precision());
+    buffer << resolution;
+    return buffer.str();
+} // getResolution
+
+
 // End of file
-- 
2.43.0


From 02991b3757033140369eb5dd68335820e13dd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 33/70] fix: do not use coordinates that do not match
 dimensions of block or surface

---
 libsrc/geomodelgrids/serial/Block.cc   | 9 ++++++---
 libsrc/geomodelgrids/serial/Surface.cc | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 1d18adb..bd07d6b 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -145,16 +145,19 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     if (_coordinatesX && (dims[0] != _dims[0])) {
         msg << indent << "    x dimension of block " << blockPath << " (" << _dims[0]
             << ") does not match number of x coordinates (" << dims[0] << ").\n";
+        delete[] _coordinatesX;_coordinatesX = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesY && (dims[1] != _dims[1])) {
         msg << indent << "    y dimension of block " << blockPath << " (" << _dims[1]
-            << ") does not match number of x coordinates (" << dims[1] << ").\n";
+            << ") does not match number of y coordinates (" << dims[1] << ").\n";
+        delete[] _coordinatesY;_coordinatesY = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesZ && (dims[2] != _dims[2])) {
         msg << indent << "    z dimension of block " << blockPath << " (" << _dims[2]
-            << ") does not match number of x coordinates (" << dims[2] << ").\n";
+            << ") does not match number of z coordinates (" << dims[2] << ").\n";
+        delete[] _coordinatesZ;_coordinatesZ = nullptr;
         attributeErrors = true;
     } // if
 
@@ -232,7 +235,7 @@ geomodelgrids::serial::Block::getZBottom(void) const {
     double zBottom = 0.0;
     if (_resolutionZ > 0.0) {
         zBottom = _zTop - _resolutionZ * (_dims[2] - 1);
-    } else if (_coordinatesZ) {
+    } else if (_coordinatesZ && (_dims[2] > 0)) {
         zBottom = _coordinatesZ[_dims[2]-1];
     } // if/else
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 7e20fef..c5bff33 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -99,11 +99,13 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     if (_coordinatesX && (dims[0] != _dims[0])) {
         msg << indent << "    x dimension of surface " << surfacePath << " (" << _dims[0]
             << ") does not match number of x coordinates (" << dims[0] << ").\n";
+        delete[] _coordinatesX;_coordinatesX = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesY && (dims[1] != _dims[1])) {
         msg << indent << "    y dimension of surface " << surfacePath << " (" << _dims[1]
-            << ") does not match number of x coordinates (" << dims[1] << ").\n";
+            << ") does not match number of y coordinates (" << dims[1] << ").\n";
+        delete[] _coordinatesY;_coordinatesY = nullptr;
         attributeErrors = true;
     } // if
 
-- 
2.43.0


From 446effd9bfa2d9f935e8a2e5c2c177d0fe1cdd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 34/70] fix: report non-positive resolution in metadata of
 block or surface

---
 libsrc/geomodelgrids/serial/Block.cc   | 12 ++++++++++++
 libsrc/geomodelgrids/serial/Surface.cc |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index bd07d6b..42a4e80 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -73,6 +73,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     size_t dims[3];
     if (h5->hasAttribute(blockPath.c_str(), "x_resolution")) {
         h5->readAttribute(blockPath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
+        if (!(_resolutionX > 0.0)) {
+            msg << indent << "    /" << blockPath << "/x_resolution (" << _resolutionX << ") must be positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "x_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "x_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesX, &dims[0]);
@@ -85,6 +89,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
 
     if (h5->hasAttribute(blockPath.c_str(), "y_resolution")) {
         h5->readAttribute(blockPath.c_str(), "y_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionY);
+        if (!(_resolutionY > 0.0)) {
+            msg << indent << "    /" << blockPath << "/y_resolution (" << _resolutionY << ") must be positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "y_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "y_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesY, &dims[1]);
@@ -97,6 +105,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
 
     if (h5->hasAttribute(blockPath.c_str(), "z_resolution")) {
         h5->readAttribute(blockPath.c_str(), "z_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionZ);
+        if (!(_resolutionZ > 0.0)) {
+            msg << indent << "    /" << blockPath << "/z_resolution (" << _resolutionZ << ") must be positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "z_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "z_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesZ, &dims[2]);
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index c5bff33..c6f9aee 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -60,6 +60,10 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     size_t dims[2];
     if (h5->hasAttribute(surfacePath.c_str(), "x_resolution")) {
         h5->readAttribute(surfacePath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
+        if (!(_resolutionX > 0.0)) {
+            msg << indent << "    /" << surfacePath << "/x_resolution (" << _resolutionX << ") must be positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(surfacePath.c_str(), "x_coordinates")) {
             h5->readAttribute(surfacePath.c_str(), "x_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesX, &dims[0]);
@@ -72,6 +76,10 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
 
     if (h5->hasAttribute(surfacePath.c_str(), "y_resolution")) {
         h5->readAttribute(surfacePath.c_str(), "y_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionY);
+        if (!(_resolutionY > 0.0)) {
+            msg << indent << "    /" << surfacePath << "/y_resolution (" << _resolutionY << ") must be positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(surfacePath.c_str(), "y_coordinates")) {
             h5->readAttribute(surfacePath.c_str(), "y_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesY, &dims[1]);
-- 
2.43.0


From 991611bd0b24d45dfed8428e907f7e009d77fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 35/70] fix: do not print information of previous model in
 geomodelgrids_info

---
 libsrc/geomodelgrids/apps/Info.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index bef2ec6..035f614 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -82,9 +82,9 @@ geomodelgrids::apps::Info::run(int argc,
         return 0;
     } // if
 
-    geomodelgrids::serial::Model model;
     const size_t numModels = _modelFilenames.size();
     for (size_t i = 0; i < numModels; ++i) {
+        geomodelgrids::serial::Model model;
         model.open(_modelFilenames[i].c_str(), geomodelgrids::serial::Model::READ);
 
         std::cout << "Model: " << _modelFilenames[i] << std::endl;
-- 
2.43.0


From dfb24f4b90830fd2aae4af54dc978ecb17452194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 36/70] fix: geomodelgrids_info --values with missing units

---
 libsrc/geomodelgrids/apps/Info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 035f614..0847e62 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -308,9 +308,9 @@ geomodelgrids::apps::Info::_printValues(geomodelgrids::serial::Model* const mode
     const std::vector<std::string>& names = model->getValueNames();
     const std::vector<std::string>& units = model->getValueUnits();
     const size_t size = names.size();
-    assert(units.size() == size);
     for (size_t i = 0; i < size; ++i) {
-        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << units[i] << ")" << "\n";
+        const std::string& unit = (i < units.size()) ? units[i] : std::string("unknown");
+        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << unit << ")" << "\n";
     } // for
 
     switch (model->getDataLayout()) {
-- 
2.43.0


From 7b51b6b6357acf5a6f5efe58d365f491037b50bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 37/70] fix: truncated values in output of geomodelgrids_info

---
 libsrc/geomodelgrids/apps/Info.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 0847e62..ef11b4f 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -82,6 +82,7 @@ geomodelgrids::apps::Info::run(int argc,
         return 0;
     } // if
 
+    const std::streamsize precision = std::cout.precision(12);
     const size_t numModels = _modelFilenames.size();
     for (size_t i = 0; i < numModels; ++i) {
         geomodelgrids::serial::Model model;
@@ -109,6 +110,7 @@ geomodelgrids::apps::Info::run(int argc,
 
         model.close();
     } // for
+    std::cout.precision(precision);
 
     return 0;
 } // run
@@ -258,10 +260,11 @@ geomodelgrids::apps::Info::_printDescription(geomodelgrids::serial::Model* const
     std::cout << _Info::indent(1) << "Dimensions of model: x=" << dims[0] << ", y="<< dims[1] << ", z=" << dims[2] << "\n";
 
     const double* bbox = _Info::computeBoundingBox(model);
-    std::cout << _Info::indent(1) << "Bounding box (WGS84):" << std::resetiosflags(std::ios::fixed);
+    std::cout << _Info::indent(1) << "Bounding box (WGS84):";
+    std::ostringstream bboxString;
     for (size_t i = 0; i < 4; ++i) {
         const size_t dim = 2;
-        std::cout << " ("
+        bboxString << " ("
                   << std::setprecision(6)
                   << bbox[i*dim+0]
                   << ", "
@@ -269,7 +272,7 @@ geomodelgrids::apps::Info::_printDescription(geomodelgrids::serial::Model* const
                   << bbox[i*dim+1]
                   << ")";
     } // for
-    std::cout << "\n";
+    std::cout << bboxString.str() << "\n";
 } // _printDescription
 
 
-- 
2.43.0


From c789be41bb8d07084e921cbf4e2b828778044ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 38/70] fix: report invalid coordinate system and other errors
 in geomodelgrids_info

---
 libsrc/geomodelgrids/apps/Info.cc | 47 +++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index ef11b4f..6a8cb1f 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -26,6 +26,9 @@ namespace geomodelgrids {
             std::string indent(const size_t level,
                                const size_t width=4);
 
+            /// Get error message ending with a newline.
+            std::string message(const std::exception& err);
+
             void verifyCoordSys(const geomodelgrids::serial::Model* model);
 
             void verifySurface(const geomodelgrids::serial::Surface* topography,
@@ -98,7 +101,7 @@ geomodelgrids::apps::Info::run(int argc,
                 std::cout << _Info::indent(1)
                           << "WARNING: Errors encountered while reading metadata. Information may be incomplete.\n";
                 if (!_doVerification && !_showAll) {
-                    std::cout << err.what();
+                    std::cout << _Info::message(err);
                 } // if
             } // try/catch
         } // if/else
@@ -259,10 +262,18 @@ geomodelgrids::apps::Info::_printDescription(geomodelgrids::serial::Model* const
     const double* dims = model->getDims();
     std::cout << _Info::indent(1) << "Dimensions of model: x=" << dims[0] << ", y="<< dims[1] << ", z=" << dims[2] << "\n";
 
-    const double* bbox = _Info::computeBoundingBox(model);
+    const double* bbox = nullptr;
+    try {
+        bbox = _Info::computeBoundingBox(model);
+    } catch (const std::exception&) {
+        bbox = nullptr;
+    } // try/catch
     std::cout << _Info::indent(1) << "Bounding box (WGS84):";
     std::ostringstream bboxString;
-    for (size_t i = 0; i < 4; ++i) {
+    if (!bbox) {
+        bboxString << " unknown";
+    } // if
+    for (size_t i = 0; bbox && (i < 4); ++i) {
         const size_t dim = 2;
         bboxString << " ("
                   << std::setprecision(6)
@@ -289,7 +300,11 @@ geomodelgrids::apps::Info::_printCoordSys(geomodelgrids::serial::Model* const mo
     std::string xUnit;
     std::string yUnit;
     std::string zUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, &zUnit, model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, &zUnit, model->getCRSString().c_str());
+    } catch (const std::exception&) {
+        xUnit = yUnit = zUnit = "unknown";
+    } // try/catch
     std::cout << _Info::indent(2) << "Coordinate system units:"
               << " x=" << xUnit << ", y=" << yUnit << ", z=" << zUnit << "\n";
 
@@ -395,8 +410,8 @@ geomodelgrids::apps::Info::_verify(geomodelgrids::serial::Model* const model) {
 
     try {
         model->loadMetadata();
-    } catch (const std::runtime_error& err) {
-        std::cout << "FAIL\n" << err.what();
+    } catch (const std::exception& err) {
+        std::cout << "FAIL\n" << _Info::message(err);
         ok = false;
     } // try/catch
     if (ok) { std::cout << "OK\n"; }
@@ -463,6 +478,17 @@ geomodelgrids::apps::_Info::indent(const size_t level,
 } // indent
 
 
+// ------------------------------------------------------------------------------------------------
+std::string
+geomodelgrids::apps::_Info::message(const std::exception& err) {
+    std::string msg(err.what());
+    if (msg.empty() || (msg[msg.length()-1] != '\n')) {
+        msg += "\n";
+    } // if
+    return msg;
+} // message
+
+
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* model) {
@@ -472,8 +498,13 @@ geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* m
 
     std::string xUnit;
     std::string yUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
-                                                      model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
+                                                          model->getCRSString().c_str());
+    } catch (const std::exception& err) {
+        std::cout << "FAIL\n" << _Info::indent(3) << _Info::message(err);
+        ok = false;
+    } // try/catch
     if (xUnit != yUnit) {
         if (ok) { std::cout << "FAIL\n"; }
         std::cout << _Info::indent(3) << "Units for x (" << xUnit << ") and y (" << yUnit
-- 
2.43.0


From 4213f6f12b4e26ec5d9f44e8c35821daac5771d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 39/70] fix: geomodelgrids_info --verify accepts models without
 blocks

---
 libsrc/geomodelgrids/apps/Info.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 6a8cb1f..da2a7a8 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -620,6 +620,12 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
     const double tolerance = 1.0e-4;
     const size_t numBlocks = blocks.size();
 
+    if (0 == numBlocks) {
+        std::cout << "FAIL\n"
+                  << _Info::indent(3) << "Model does not contain any blocks.\n";
+        ok = false;
+    } // if
+
     if (numBlocks > 0) {
         assert(blocks[0]);
         if (fabs(blocks[0]->getZTop()) > tolerance) {
-- 
2.43.0


From d5031911a556d167f0666ded14ce23795ca68977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 40/70] fix: batches larger than maximum and unhandled
 dimensions in BatchGenerator

---
 geomodelgrids/create/utils/batch.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..4bbf633 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -5,6 +5,15 @@ import logging
 import math
 
 
+def _integer_root(value, degree):
+    """Get largest integer that raised to the power `degree` does not exceed `value`.
+    """
+    root = round(value**(1.0 / degree))
+    while root**degree > value:
+        root -= 1
+    return root
+
+
 class BatchGenerator2D():
     """Iterator for batches of points for 2D domains.
 
@@ -31,7 +40,7 @@ class BatchGenerator2D():
             self.bnum_x = num_x
             self.bnum_y = num_y
         else:
-            num_xy = round(max_nvalues**0.5)
+            num_xy = _integer_root(max_nvalues, 2)
             if num_x > num_xy and num_y > num_xy:
                 self.bnum_x = self.bnum_y = num_xy
             elif num_x <= num_xy:
@@ -120,12 +129,12 @@ class BatchGenerator3D():
             self.bnum_y = num_y
             self.bnum_z = num_z
         else:
-            num_xyz = round(max_nvalues**(1.0 / 3.0))
+            num_xyz = _integer_root(max_nvalues, 3)
             if num_x > num_xyz and num_y > num_xyz and num_z > num_xyz:
                 self.bnum_x = self.bnum_y = self.bnum_z = num_xyz
             elif num_z <= num_xyz:
                 self.bnum_z = num_z
-                num_xy = round((max_nvalues // num_z)**0.5)
+                num_xy = _integer_root(max_nvalues // num_z, 2)
                 if num_x > num_xy and num_y > num_xy:
                     self.bnum_x = self.bnum_y = num_xy
                 elif num_x <= num_xy:
@@ -138,19 +147,28 @@ class BatchGenerator3D():
                     raise ValueError("Unknown case")
             elif num_x <= num_xyz:
                 self.bnum_x = num_x
-                num_yz = round((max_nvalues // num_x)**0.5)
+                num_yz = _integer_root(max_nvalues // num_x, 2)
                 if num_y > num_yz and num_z > num_yz:
                     self.bnum_y = self.bnum_z = num_yz
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
                 self.bnum_y = num_y
-                num_xz = round((max_nvalues // num_y)**0.5)
+                num_xz = _integer_root(max_nvalues // num_y, 2)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From 7b713364eddec0a4cffa9cf7f408a742f0e77a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 41/70] fix: last points of uniform axis lost to roundoff when
 creating model

---
 geomodelgrids/create/core/model.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..320d011 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -13,6 +13,13 @@ from geomodelgrids.create.utils import batch
 from geomodelgrids.create.io.hdf5 import HDF5Storage
 
 
+def _num_points(length, resolution):
+    """Get number of points along axis with uniform resolution, allowing for roundoff in the quotient.
+    """
+    TOLERANCE = 1.0e-6
+    return 1 + int(length / resolution + TOLERANCE)
+
+
 class Surface():
     """Model surface.
 
@@ -61,8 +68,8 @@ class Surface():
         Returns:
             Tuple of number of points along each dimension (num_x, num_y).
         """
-        num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution) if self.x_resolution else len(self.x_coordinates)
-        num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution) if self.y_resolution else len(self.y_coordinates)
+        num_x = _num_points(self.model_metadata.dim_x, self.x_resolution) if self.x_resolution else len(self.x_coordinates)
+        num_y = _num_points(self.model_metadata.dim_y, self.y_resolution) if self.y_resolution else len(self.y_coordinates)
         return (num_x, num_y, 1)
 
     def get_batches(self, batch_size):
@@ -191,15 +198,15 @@ class Block():
             Tuple of number of points along each dimension (num_x, num_y, num_z).
         """
         if self.x_resolution:
-            num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution)
+            num_x = _num_points(self.model_metadata.dim_x, self.x_resolution)
         else:
             num_x = len(self.x_coordinates)
         if self.y_resolution:
-            num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution)
+            num_y = _num_points(self.model_metadata.dim_y, self.y_resolution)
         else:
             num_y = len(self.y_coordinates)
         if self.z_resolution:
-            num_z = 1 + int((self.z_top - self.z_bot) / self.z_resolution)
+            num_z = _num_points(self.z_top - self.z_bot, self.z_resolution)
         else:
             num_z = len(self.z_coordinates)
         return (num_x, num_y, num_z)
-- 
2.43.0


From 587aaf4e53dc08e5815a32d977b015a53b43f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 42/70] fix: surface elevations for batches and models created
 without batches

---
 geomodelgrids/create/apps/create_model.py |  2 +-
 geomodelgrids/create/core/model.py        | 76 +++++++++--------------
 2 files changed, 29 insertions(+), 49 deletions(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..c71a911 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 320d011..559acc7 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -249,7 +249,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
@@ -296,7 +296,7 @@ class Block():
         Returns:
             Numpy array [Nx,Ny] with elevation of surface for current batch in block.
         """
-        TOLERANCE = 0.01
+        TOLERANCE = 1.0e-4  # Relative to spacing of surface points.
 
         class BatchSurface():
 
@@ -304,41 +304,25 @@ class Block():
                 self.x_range = x_range
                 self.y_range = y_range
 
-        def _get_slice_uniform(block_resolution, surfae_dim, surface_resolution, batch_range):
-            block_skip = int(0.01 + block_resolution / surface_resolution)
-            if math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE:
+        def _get_indices_uniform(block_resolution, surface_resolution, block_range):
+            block_skip = round(block_resolution / surface_resolution)
+            if block_skip < 1 or \
+                    math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE * surface_resolution:
                 raise ValueError(
                     f"Block resolution ({block_resolution}) must be a integer multiple of the surface resolution ({surface_resolution})")
-            if batch:
-                surf_range = (block_skip * batch_range[0], block_skip * batch_range[1])
-                indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
-            else:
-                surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
-            return (surf_range, indices)
-
-        def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
-            if batch:
-                block_values = block_coordinates[batch_range[0]:batch_range[1]]
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_values)
-                for index, block_coord in zip(indices, block_values):
-                    if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
-            else:
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_coordinates)
-                for index, block_coord in zip(indices, block_coordinates):
-                    if abs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
-            return (surf_range, indices)
+            return block_skip * numpy.arange(*block_range, dtype=numpy.int64)
+
+        def _get_indices_variable(block_coordinates, surface_coordinates, block_range):
+            scoords = numpy.array(surface_coordinates)
+            tolerance = TOLERANCE * numpy.min(numpy.diff(scoords)) if len(scoords) > 1 else TOLERANCE
+            indices = []
+            for block_coord in block_coordinates[block_range[0]:block_range[1]]:
+                index = numpy.argmin(numpy.abs(scoords - block_coord))
+                if math.fabs(scoords[index] - block_coord) > tolerance:
+                    raise ValueError(
+                        f"Could not find surface coordinate matching block coordinate ({block_coord}).")
+                indices.append(index)
+            return numpy.array(indices)
 
         if self.x_resolution and not surface.x_resolution:
             raise ValueError("Cannot use uniform x-resolution block with variable x-resolution surface.")
@@ -349,25 +333,21 @@ class Block():
         elif self.y_coordinates and not surface.y_coordinates:
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
-        surface_dims = surface.get_dims()
+        num_x, num_y, _ = self.get_dims()
+        x_range = batch.x_range if batch else (0, num_x)
+        y_range = batch.y_range if batch else (0, num_y)
         if self.x_resolution:
-            (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+            x_indices = _get_indices_uniform(self.x_resolution, surface.x_resolution, x_range)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            x_indices = _get_indices_variable(self.x_coordinates, surface.x_coordinates, x_range)
         if self.y_resolution:
-            (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
-        else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
-
-        if batch:
-            surface_batch = BatchSurface(surf_xrange, surf_yrange)
+            y_indices = _get_indices_uniform(self.y_resolution, surface.y_resolution, y_range)
         else:
-            surface_batch = None
+            y_indices = _get_indices_variable(self.y_coordinates, surface.y_coordinates, y_range)
 
+        surface_batch = BatchSurface((x_indices[0], x_indices[-1]+1), (y_indices[0], y_indices[-1]+1))
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices-x_indices[0], y_indices-y_indices[0], [0])][:, :, 0])
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From e659545c6471fe712787ada8309038c952b7c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 43/70] fix: top offset applied to the first slice of every
 batch

---
 geomodelgrids/create/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 559acc7..62271d3 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -274,7 +274,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
-- 
2.43.0


From bfba559787984019aa0393c73e707353d856c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 44/70] fix: values misplaced when coordinates are listed in
 another order than they are stored

---
 geomodelgrids/create/core/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 62271d3..79a4788 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -51,13 +51,13 @@ class Surface():
             self.x_coordinates = None
         else:
             self.x_resolution = None
-            self.x_coordinates = tuple(map(float, string_to_list(config["x_coordinates"])))
+            self.x_coordinates = tuple(sorted(map(float, string_to_list(config["x_coordinates"]))))
         if "y_resolution" in config:
             self.y_resolution = float(config["y_resolution"])
             self.y_coordinates = None
         else:
             self.y_resolution = None
-            self.y_coordinates = tuple(map(float, string_to_list(config["y_coordinates"])))
+            self.y_coordinates = tuple(sorted(map(float, string_to_list(config["y_coordinates"]))))
 
         self.chunk_size = tuple(map(int, string_to_list(config["chunk_size"])))
         self.storage = storage
@@ -170,13 +170,13 @@ class Block():
             self.x_coordinates = None
         else:
             self.x_resolution = None
-            self.x_coordinates = tuple(map(float, string_to_list(config["x_coordinates"])))
+            self.x_coordinates = tuple(sorted(map(float, string_to_list(config["x_coordinates"]))))
         if "y_resolution" in config:
             self.y_resolution = float(config["y_resolution"])
             self.y_coordinates = None
         else:
             self.y_resolution = None
-            self.y_coordinates = tuple(map(float, string_to_list(config["y_coordinates"])))
+            self.y_coordinates = tuple(sorted(map(float, string_to_list(config["y_coordinates"]))))
         if "z_resolution" in config:
             self.z_resolution = float(config["z_resolution"])
             self.z_coordinates = None
@@ -184,7 +184,7 @@ class Block():
             self.z_bot = float(config["z_bot"])
         else:
             self.z_resolution = None
-            self.z_coordinates = tuple(map(float, string_to_list(config["z_coordinates"])))
+            self.z_coordinates = tuple(sorted(map(float, string_to_list(config["z_coordinates"])), reverse=True))
             self.z_top = numpy.max(self.z_coordinates)
             self.z_bot = numpy.min(self.z_coordinates)
 
-- 
2.43.0


From d4633fcf7f4f805d4e40fa59347bc56d7b976f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 45/70] fix: command line arguments not passed on by
 geomodelgrids_create_model

---
 geomodelgrids/create/apps/create_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index c71a911..1c9e7f5 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -153,13 +153,15 @@ def cli():
     parser.add_argument("--debug", action="store_true", dest="debug")
     args = parser.parse_args()
 
-    app = App(show_progress=True, debug=args.debug, log_filename=args.log_filename)
+    app = App(show_progress=args.show_progress, debug=args.debug, log_filename=args.log_filename)
     kwargs = {
+        "config_filenames": args.config,
         "show_parameters": args.show_parameters,
         "import_domain": args.import_domain,
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
     app.main(**kwargs)
 
-- 
2.43.0


From 9b6f6a2c0aabd591ac7e9f5ca6260e5aa1316566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 46/70] fix: use_surface ignored when creating model

---
 geomodelgrids/create/core/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 79a4788..cde24e5 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -3,6 +3,7 @@
 
 import logging
 import math
+from configparser import ConfigParser
 from dataclasses import dataclass, field
 from typing import List, Dict
 
@@ -601,16 +602,27 @@ class Model():
             self.blocks.append(block)
 
         self.storage = HDF5Storage(config["geomodelgrids"]["filename"])
-        if "top_surface" in config:
+        if self._use_surface(config, "top_surface"):
             self.top_surface = Surface("top_surface", self.metadata, config["top_surface"], self.storage)
         else:
             self.top_surface = None
-        if "topography_bathymetry" in config:
+        if self._use_surface(config, "topography_bathymetry"):
             self.topo_bathy = Surface("topography_bathymetry", self.metadata,
                                       config["topography_bathymetry"], self.storage)
         else:
             self.topo_bathy = None
 
+    @staticmethod
+    def _use_surface(config, name):
+        """Check whether surface is in configuration and not turned off with `use_surface`.
+        """
+        if name not in config:
+            return False
+        value = str(config[name].get("use_surface", True)).lower()
+        if value not in ConfigParser.BOOLEAN_STATES:
+            raise ValueError(f"Expected boolean for 'use_surface' of surface '{name}'. Got '{value}'.")
+        return ConfigParser.BOOLEAN_STATES[value]
+
     @staticmethod
     def get_attributes():
         """Get attributes for model.
-- 
2.43.0


From 5c97da9f3b083444eeba21b261aab4105026a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 47/70] fix: undefined names in error messages of HDF5Storage

---
 geomodelgrids/create/io/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..44f8632 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -112,7 +112,9 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                config_attr = getattr(surface, attr_name)
+                h5_attr = attrs[attr_name]
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
@@ -207,7 +209,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v) for v in value]
                 else:
-- 
2.43.0


From a3a38b6e47ec751d4fd71f3481675bd5ef774d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 48/70] fix: resolution of axis left in metadata after update
 with coordinates

---
 geomodelgrids/create/io/hdf5.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 44f8632..a8f86ad 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -61,6 +61,7 @@ class HDF5Storage():
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(surface, attr_info)
+        self._remove_stale_attributes(attrs, surface)
         h5.close()
 
     def save_surface(self, surface, elevation, batch=None):
@@ -159,6 +160,7 @@ class HDF5Storage():
         for attr_info in block.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(block, attr_info)
+        self._remove_stale_attributes(attrs, block)
         h5.close()
 
     def save_block(self, block, data, batch=None):
@@ -186,6 +188,16 @@ class HDF5Storage():
             block_dataset[:] = data
         h5.close()
 
+    @staticmethod
+    def _remove_stale_attributes(attrs, grid):
+        """Remove attributes left from describing an axis with the other type of resolution (uniform or variable).
+        """
+        current = [attr_info[0] for attr_info in grid.get_attributes()]
+        for axis in ("x", "y", "z"):
+            for name in (f"{axis}_resolution", f"{axis}_coordinates", f"{axis}_top"):
+                if name in attrs and name not in current:
+                    del attrs[name]
+
     @staticmethod
     def _get_attribute(metadata, attr_info):
         result = None
-- 
2.43.0


From 5060faf8a78dafe49e4baba333fef7cf3e0deaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 49/70] fix: lists of strings with non-ASCII characters when
 creating model

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index a8f86ad..fa025eb 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -223,7 +223,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value]
+                    result = [v.encode("utf-8") for v in value]
                 else:
                     result = value
             else:
-- 
2.43.0


From 31678348b95fae3ae36f8f8140d791fc10f340bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 50/70] fix: metadata provided by the data source lost when
 creating or updating model

---
 geomodelgrids/create/apps/create_model.py | 2 +-
 geomodelgrids/create/core/model.py        | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 1c9e7f5..42b514e 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -64,7 +64,7 @@ class App():
             self.show_parameters()
             return
 
-        if import_domain or import_surfaces or import_blocks or all_steps:
+        if import_domain or import_surfaces or import_blocks or update_metadata or all_steps:
             data_path = self.config["geomodelgrids"]["data_source"].split(".")
             data_obj = getattr(import_module(".".join(data_path[:-1])), data_path[-1])
             datasrc = data_obj(self.config)
diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index cde24e5..8e144a1 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -495,11 +495,10 @@ class ModelMetadata:
         self.dim_z = float(config["domain"]["dim_z"])
 
         # Auxiliary data
+        self.auxiliary = dict(config.get("auxiliary", {}))  # Auxiliary data from data source
         if "auxiliary" in config["data"]:
             import json
-            self.auxiliary = json.loads(config["data"]["auxiliary"])
-        else:
-            self.auxiliary = {}
+            self.auxiliary.update(json.loads(config["data"]["auxiliary"]))
 
 
 class Model():
-- 
2.43.0


From 6e33a1188cafef94d0e5f513a80ec0a87ac4b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 51/70] fix: first and last characters of lists without
 brackets dropped

---
 geomodelgrids/create/utils/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/utils/config.py b/geomodelgrids/create/utils/config.py
index 1cb02d0..560e313 100644
--- a/geomodelgrids/create/utils/config.py
+++ b/geomodelgrids/create/utils/config.py
@@ -22,9 +22,15 @@ def string_to_list(list_string, delimiter=","):
     if isinstance(list_string, list):
         return list_string
 
-    PATTERN = "[\[\(]?([\w\s,]+)[\]\)]?"
-    values = [value.strip() for value in list_string[1:-1].split(delimiter)]
-    return values
+    BRACKETS = {"[": "]", "(": ")"}
+    contents = list_string.strip()
+    if contents[:1] in BRACKETS:
+        if len(contents) < 2 or contents[-1] != BRACKETS[contents[0]]:
+            raise ValueError(f"Missing closing bracket in list '{list_string}'.")
+        contents = contents[1:-1]
+    elif contents[-1:] == "]" or (contents[-1:] == ")" and not "(" in contents):
+        raise ValueError(f"Missing opening bracket in list '{list_string}'.")
+    return [value.strip() for value in contents.split(delimiter)]
 
 
 def get_config(filenames, keep_case=True, verbose=False):
-- 
2.43.0


From ac5b56a82e1b91486bf662b71a51a4f3ab65c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 52/70] fix: model file left open after inconsistency in
 surface

---
 geomodelgrids/create/io/hdf5.py | 53 ++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index fa025eb..4a5df82 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -96,36 +96,35 @@ class HDF5Storage():
             batch (utils.BatchGenerator2D)
                 Current batch of points in domain corresponding to elevation data.
         """
-        h5 = h5py.File(self.filename, "r")
-        surf_dataset = h5["surfaces"][surface.name]
-        attrs = surf_dataset.attrs
-        for attr_info in surface.get_attributes():
-            attr_name = attr_info[0]
-            attr_type = attr_info[1]
-            if attr_type == list or attr_type == tuple:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
-                if len(config_attr) != len(h5_attr):
-                    raise ValueError(
-                        f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
-                for config_value, h5_value in zip(config_attr, h5_attr):
-                    if config_value != h5_value:
+        with h5py.File(self.filename, "r") as h5:
+            surf_dataset = h5["surfaces"][surface.name]
+            attrs = surf_dataset.attrs
+            for attr_info in surface.get_attributes():
+                attr_name = attr_info[0]
+                attr_type = attr_info[1]
+                if attr_type == list or attr_type == tuple:
+                    config_attr = getattr(surface, attr_name)
+                    h5_attr = attrs[attr_name]
+                    if len(config_attr) != len(h5_attr):
+                        raise ValueError(
+                            f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
+                    for config_value, h5_value in zip(config_attr, h5_attr):
+                        if config_value != h5_value:
+                            raise ValueError(
+                                f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
+                else:
+                    config_attr = getattr(surface, attr_name)
+                    h5_attr = attrs[attr_name]
+                    if config_attr != h5_attr:
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
-            else:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
-                if config_attr != h5_attr:
-                    raise ValueError(
-                        f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
-        if batch:
-            x_start, x_end = batch.x_range
-            y_start, y_end = batch.y_range
-            elevation = surf_dataset[x_start:x_end, y_start:y_end]
-        else:
-            elevation = surf_dataset[:]
-        h5.close()
+            if batch:
+                x_start, x_end = batch.x_range
+                y_start, y_end = batch.y_range
+                elevation = surf_dataset[x_start:x_end, y_start:y_end]
+            else:
+                elevation = surf_dataset[:]
 
         return elevation
 
-- 
2.43.0


From cf0a1771a35de33e362930d663de08724a7d1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 53/70] fix: values in CSV files assigned to the wrong grid
 points

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 48 +++++++++----------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index beeb64f..ddd0fd1 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,46 +54,44 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _varxy_index_fn(coordinates):
-            x_grid = numpy.array(coordinates)
-            x_grid.sort()
-            x_round = -int(numpy.log10(numpy.min(numpy.diff(x_grid))))
-            return x_grid.searchsorted(round(x, x_round))
+        def _grid_index(grid, coordinates):
+            """Get index of closest point in increasing grid and distance from it relative to spacing of grid.
+            """
+            if len(grid) > 1:
+                cell = numpy.clip(grid.searchsorted(coordinates) - 1, 0, len(grid) - 2)
+                position = cell + (coordinates - grid[cell]) / (grid[cell+1] - grid[cell])
+            else:
+                position = coordinates - grid[0]
+            index = numpy.rint(position).astype(numpy.int64)
+            return index, numpy.abs(position - index)
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
 
         comment_flag = self.config["csv"].get("comment_flag", "#")
-        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag)
+        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag, ndmin=2)
         model_x, model_y, model_z = self._to_model_xyz(csv_data)
 
         value_names = string_to_list(self.config["data"]["values"])
         value_columns = [int(self.config["csv.columns"][value]) for value in value_names]
 
-        if block.x_resolution:
-            def get_xindex(x, block): return round(x / block.x_resolution)
-        else:
-            def get_xindex(x, block): return _varxy_index_fn(block.x_coordinates)
-        if block.y_resolution:
-            def get_yindex(y, block): return round(y / block.y_resolution)
-        else:
-            def get_yindex(y, block): return _varxy_index_fn(block.y_coordinates)
+        nx, ny, nz = block.get_dims()
+        x_grid = block.x_resolution * numpy.arange(nx) if block.x_resolution else numpy.array(block.x_coordinates)
+        y_grid = block.y_resolution * numpy.arange(ny) if block.y_resolution else numpy.array(block.y_coordinates)
         if block.z_resolution:
-            def get_zindex(z, block): return round(z / block.z_resolution)
+            z_grid = block.z_top - block.z_resolution * numpy.arange(nz)
         else:
             z_grid = numpy.array(block.z_coordinates)
-            z_grid.sort()
-            z_round = -int(numpy.log10(numpy.min(numpy.diff(z_grid))))
-            def get_zindex(z, block): return len(z_grid) - 1 - z_grid.searchsorted(round(z, z_round))
+        ix, dist_x = _grid_index(x_grid, model_x)
+        iy, dist_y = _grid_index(y_grid, model_y)
+        iz, dist_z = _grid_index(-z_grid, -model_z)
+        inside = (ix >= 0) & (ix < nx) & (iy >= 0) & (iy < ny) & (iz >= 0) & (iz < nz)
+        distance = dist_x**2 + dist_y**2 + dist_z**2
 
-        nx, ny, nz = block.get_dims()
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
-        for row, x, y, z in zip(csv_data, model_x, model_y, model_z):
-            ix = get_xindex(x, block)
-            iy = get_yindex(y, block)
-            iz = get_zindex(z, block)
-            row_values = row[value_columns]
-            values[ix, iy, iz, :] = row_values
+        for irow in numpy.argsort(-distance, kind="stable"):  # Row closest to grid point last
+            if inside[irow]:
+                values[ix[irow], iy[irow], iz[irow], :] = csv_data[irow, value_columns]
         return values
 
     def _to_model_xyz(self, csv_data):
-- 
2.43.0


From 97a2b7827e5e9b90ff84349966e8466af42f8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 54/70] fix: missing metadata for models from IRIS EMC files

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index df334a9..5928a94 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -106,6 +106,7 @@ class EMCNetCDF(DataSrc):
         self.config["data"] = {
             "values": values,
             "units": units,
+            "layout": "vertex",
         }
 
         long_names = {}
@@ -131,7 +132,9 @@ class EMCNetCDF(DataSrc):
             "z_top_offset": 0.0,
         }
         if is_uniform_resolution(self.emc.variables["depth"][:]):
-            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1),
+            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
+            info["z_top"] = -vertical_scale * depth_min
+            info["z_bot"] = -vertical_scale * depth_max
         else:
             z_coordinates = -vertical_scale * self.emc.variables["depth"][:]
             info["z_coordinates"] = z_coordinates.tolist()
-- 
2.43.0


From e71ec08ce01c32a0ac37316e639d874cced1d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 55/70] fix: missing values in IRIS EMC files stored as their
 fill value

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 5928a94..61843a0 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -170,12 +170,12 @@ class EMCNetCDF(DataSrc):
             z_start, z_end = batch.z_range
             for i_value, name in enumerate(value_names):
                 values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
-                values[:, :, :, i_value] = numpy.transpose(values_batch)
+                values[:, :, :, i_value] = numpy.transpose(numpy.ma.filled(values_batch, NODATA_VALUE))
         else:
             nz, ny, nx = self.emc.variables[value_names[0]][:].shape
             values = numpy.zeros((nx, ny, nz, len(value_names)), dtype=numpy.float32)
             for i_value, name in enumerate(value_names):
-                values[:, :, :, i_value] = numpy.transpose(self.emc.variables[name][:])
+                values[:, :, :, i_value] = numpy.transpose(numpy.ma.filled(self.emc.variables[name][:], NODATA_VALUE))
         return values
 
 
-- 
2.43.0


From 950eea558b1c326065ea1d3d4a203e383ae7c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 56/70] fix: SCEC CCA06 data source cannot be created

---
 geomodelgrids/create/io/scec_cca.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/geomodelgrids/create/io/scec_cca.py b/geomodelgrids/create/io/scec_cca.py
index 98b2b37..0d05775 100644
--- a/geomodelgrids/create/io/scec_cca.py
+++ b/geomodelgrids/create/io/scec_cca.py
@@ -23,31 +23,34 @@ class CCA06(DataSrc):
         """
         self.filename = config["scec_cca"]["data_file"]
 
-    def get_topography(self, points):
-        """Write domain attributes to HDF5 file.
+    def get_top_surface(self, points):
+        """No elevation of top surface in SCEC CCA06.
+        """
+        return None
 
-        Args:
-            points (numpy.array [Nx,Ny])
-                Numpy array with coordinates of points in model coordinates.
-        Returns:
-            None
+    def get_topography_bathymetry(self, points):
+        """No topography/bathymetry in SCEC CCA06.
         """
-        return
+        return None
 
-    def get_values(self, block, topography, batch=None):
+    def get_values(self, block, top_surface, topo_bathy, batch=None):
         """Get model values.
 
         Args:
             block (Block)
                 Block information.
-            topography ()
+            top_surface (Surface)
+                Elevation of top surface of model.
+            topo_bathy (Surface)
+                Elevation of topography or bathymetry used to define depth.
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
         DIM = 3
-        x_start, x_end = batch.x_range
-        y_start, y_end = batch.y_range
-        z_start, z_end = batch.z_range
+        dims = block.get_dims()
+        x_start, x_end = batch.x_range if batch else (0, dims[0])
+        y_start, y_end = batch.y_range if batch else (0, dims[1])
+        z_start, z_end = batch.z_range if batch else (0, dims[2])
         num_x = x_end - x_start
         num_y = y_end - y_start
         num_z = z_end - z_start
-- 
2.43.0


From b68a3a9fe3d34cb18d70d70f238a5e0b577ad461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 57/70] fix: surface elevations for a batch with a single point

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 8e144a1..bc909fb 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -349,7 +349,7 @@ class Block():
 
         surface_batch = BatchSurface((x_indices[0], x_indices[-1]+1), (y_indices[0], y_indices[-1]+1))
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices-x_indices[0], y_indices-y_indices[0], [0])][:, :, 0])
+        return elevation[numpy.ix_(x_indices-x_indices[0], y_indices-y_indices[0], [0])][:, :, 0].astype(numpy.float64)
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From e065436893e75444702f73072667c82523d43daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 58/70] fix: missing or broadcast values from data source
 stored as if complete

---
 geomodelgrids/create/io/hdf5.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 4a5df82..011c8de 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -75,6 +75,12 @@ class HDF5Storage():
             batch (utils.BatchGenerator2D)
                 Current batch of points in domain corresponding to elevation data.
         """
+        num_x, num_y, _ = surface.get_dims()
+        if batch:
+            num_x = batch.x_range[1] - batch.x_range[0]
+            num_y = batch.y_range[1] - batch.y_range[0]
+        self._check_values(f"surface '{surface.name}'", elevation, (num_x, num_y, 1))
+
         h5 = h5py.File(self.filename, "a")
         surfaces_group = h5["surfaces"]
         assert surface.name in surfaces_group
@@ -173,6 +179,11 @@ class HDF5Storage():
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
+        dims = block.get_dims()
+        if batch:
+            dims = [end - start for start, end in (batch.x_range, batch.y_range, batch.z_range)]
+        self._check_values(f"block '{block.name}'", data, (*dims, len(block.model_metadata.data_values)))
+
         h5 = h5py.File(self.filename, "a")
         assert "blocks" in h5
         blocks_group = h5["blocks"]
@@ -187,6 +198,16 @@ class HDF5Storage():
             block_dataset[:] = data
         h5.close()
 
+    @staticmethod
+    def _check_values(description, values, shape):
+        """Verify that data source provided a value for every point.
+        """
+        if values is None:
+            raise ValueError(f"Data source does not provide values for {description}.")
+        if numpy.size(values) != numpy.prod(shape):
+            raise ValueError(
+                f"Expected values with shape {shape} for {description}. Got values with shape {numpy.shape(values)}.")
+
     @staticmethod
     def _remove_stale_attributes(attrs, grid):
         """Remove attributes left from describing an axis with the other type of resolution (uniform or variable).
-- 
2.43.0


From 35aaf0eeb1aab77e2498fd0b94c025fe301f88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 59/70] fix: parameters with '%' or upper case letters in
 --show-parameters

---
 geomodelgrids/create/apps/create_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 42b514e..84de5da 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -128,7 +128,9 @@ class App():
         """Write parameters to stdout.
         """
         parser = configparser.ConfigParser()
-        parser.read_dict(self.config)
+        parser.optionxform = str
+        parser.read_dict({section: {key: value.replace("%", "%%") for key, value in options.items()}
+                          for section, options in self.config.items()})
         parser.write(sys.stdout)
 
 
-- 
2.43.0


From 7e0d887f0f2663d877424558b92c3dc6f55f2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 60/70] fix: metadata update that does not match stored values

---
 geomodelgrids/create/core/model.py |  2 ++
 geomodelgrids/create/io/hdf5.py    | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index bc909fb..bd8854a 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -579,6 +579,8 @@ class Model():
     def update_metadata(self):
         """Update all metadata for model using current model configuration.
         """
+        surfaces = [surface for surface in (self.top_surface, self.topo_bathy) if surface]
+        self.storage.verify_shapes(surfaces, self.blocks)
         self.storage.save_domain(self)
         if self.top_surface:
             self.storage.save_surface_metadata(self.top_surface)
diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 011c8de..18967e2 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -31,6 +31,25 @@ class HDF5Storage():
             attrs[attr_name] = self._get_attribute(domain.metadata, attr_info)
         h5.close()
 
+    def verify_shapes(self, surfaces, blocks):
+        """Verify that the grids in the HDF5 file have the dimensions given by the model configuration.
+
+        Args:
+            surfaces (list of Surface)
+                Model surfaces.
+            blocks (list of Block)
+                Model blocks.
+        """
+        with h5py.File(self.filename, "r") as h5:
+            grids = [(f"surfaces/{surface.name}", surface.get_dims()) for surface in surfaces]
+            grids += [(f"blocks/{block.name}", (*block.get_dims(), len(block.model_metadata.data_values))) for block in blocks]
+            for path, shape in grids:
+                if not path in h5:
+                    raise ValueError(f"Could not find '{path}' in model '{self.filename}'.")
+                if h5[path].shape != shape:
+                    raise ValueError(
+                        f"Inconsistency in '{path}': shape from config: {shape}, shape from model: {h5[path].shape}")
+
     def create_surface(self, surface):
         """Create surface in HDF5 file.
 
-- 
2.43.0


From 727cd03b6739389c9c2b3bdf22ab6497fdb5ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 61/70] fix: depth of points in EarthVision models depends on
 batches

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index e857da5..81c17b2 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -161,7 +161,8 @@ class RulesDataSrc(DataSrc):
         depth = numpy.zeros(points.shape[:-1])
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
-        depth[:, :, 0] -= block.z_top_offset
+        if not batch or batch.z_range[0] == 0:
+            depth[:, :, 0] -= block.z_top_offset
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
-- 
2.43.0


From 06b8d506bc247801f2ac78b17da3ca60068d5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 62/70] fix: points missing in SCEC CCA06 file stored as zero

---
 geomodelgrids/create/io/scec_cca.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/scec_cca.py b/geomodelgrids/create/io/scec_cca.py
index 0d05775..9653faa 100644
--- a/geomodelgrids/create/io/scec_cca.py
+++ b/geomodelgrids/create/io/scec_cca.py
@@ -6,6 +6,7 @@ import logging
 
 import numpy
 
+from geomodelgrids.create.core import NODATA_VALUE
 from geomodelgrids.create.core.datasrc import DataSrc
 
 
@@ -59,7 +60,7 @@ class CCA06(DataSrc):
         logger.info("Getting values for batch %s from SCEC CCA06 '%s'.",
                     batch, self.filename)
 
-        data = numpy.zeros((num_x, num_y, num_z, self.NUM_VALUES))
+        data = NODATA_VALUE * numpy.ones((num_x, num_y, num_z, self.NUM_VALUES))
         with open(self.filename, "r") as fin:
             for line in fin:
                 values = line.split()
-- 
2.43.0


From 54c3eeb3a0a951d66aede3cbe97164a3fbc02858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 63/70] fix: order of axes in coordinate system of models from
 IRIS EMC files

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 61843a0..260cc03 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -71,7 +71,7 @@ class EMCNetCDF(DataSrc):
         self.config["geomodelgrids"].update(metadata)
 
         self.config["coordsys"] = {
-            "crs": "EPSG:4979",
+            "crs": "OGC:CRS84h",  # EPSG:4979 with longitude, latitude order
             "origin_x": self.emc.geospatial_lon_min,
             "origin_y": self.emc.geospatial_lat_min,
             "y_azimuth": 0.0,
-- 
2.43.0


From 0f0f899b06923cb42b5b5338684e88af88c951c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 64/70] fix: depth of domain of models from IRIS EMC files that
 do not start at the surface

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 260cc03..b6f8153 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -83,7 +83,6 @@ class EMCNetCDF(DataSrc):
         lat_max = self.emc.geospatial_lat_max
         lat_min = self.emc.geospatial_lat_min
         depth_max = self.emc.geospatial_vertical_max
-        depth_min = self.emc.geospatial_vertical_min
         assert self.emc.geospatial_lon_units.strip() in ["degrees_east", "degrees"]
         assert self.emc.geospatial_lat_units.strip() in ["degrees_north", "degrees"]
         vertical_scale = units.length_scale(self.emc.geospatial_vertical_units)
@@ -91,7 +90,7 @@ class EMCNetCDF(DataSrc):
         self.config["domain"].update({
             "dim_x": lon_max - lon_min,
             "dim_y": lat_max - lat_min,
-            "dim_z": (depth_max - depth_min) * vertical_scale,
+            "dim_z": depth_max * vertical_scale,
             "blocks": ["block"],
         })
 
-- 
2.43.0


From 699a1947b7aaeba9658cc5d432019a99b2ce2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 65/70] fix: values in EarthVision models converted to integers
 if the first one is an integer

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index 81c17b2..40beaed 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -20,7 +20,7 @@ class RulesDataSrc(DataSrc):
     """
     @staticmethod
     def query_rule(rules_fn, data, depth):
-        return rules_fn(data[3], data[4])(data[0], data[1], depth)
+        return tuple(map(float, rules_fn(data[3], data[4])(data[0], data[1], depth)))
 
     @staticmethod
     def set_faultblock_id(faultblock_ids, name):
@@ -175,8 +175,8 @@ class RulesDataSrc(DataSrc):
 
         # Append fault block and zone id to values
         # :KLUDGE: Fault block and zone id are converted from int to float
-        faultblock_id = numpy.vectorize(self.set_faultblock_id)(self.faultblock_ids, data["fault_block"])
-        zone_id = numpy.vectorize(self.set_zone_id)(self.zone_ids, data["zone"])
+        faultblock_id = numpy.vectorize(self.set_faultblock_id, otypes=[float])(self.faultblock_ids, data["fault_block"])
+        zone_id = numpy.vectorize(self.set_zone_id, otypes=[float])(self.zone_ids, data["zone"])
         values = numpy.vstack([v for v in rules_values] + [faultblock_id.reshape((1, -1)),
                                                            zone_id.reshape((1, -1))]).transpose()
         values = values.reshape((points.shape[0], points.shape[1], points.shape[2], -1))
-- 
2.43.0


From 4a0047dda79a3286b216f091443094dc3b551115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 66/70] fix: lines with missing values accepted in SCEC CCA06
 file

---
 geomodelgrids/create/io/scec_cca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomodelgrids/create/io/scec_cca.py b/geomodelgrids/create/io/scec_cca.py
index 9653faa..19669ec 100644
--- a/geomodelgrids/create/io/scec_cca.py
+++ b/geomodelgrids/create/io/scec_cca.py
@@ -64,6 +64,8 @@ class CCA06(DataSrc):
         with open(self.filename, "r") as fin:
             for line in fin:
                 values = line.split()
+                if len(values) < DIM + self.NUM_VALUES:
+                    raise ValueError(f"Missing values in line '{line.rstrip()}' of '{self.filename}'.")
                 ix, iy, iz = map(int, values[0:DIM])
                 ix -= 1
                 iy -= 1
-- 
2.43.0


From b3b947dec4af4a1eff6b310a9ad32674458a9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 67/70] fix: generate_points requires Python 2

---
 geomodelgrids/scripts/generate_points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/scripts/generate_points.py b/geomodelgrids/scripts/generate_points.py
index 6b419cb..b5c6ed7 100755
--- a/geomodelgrids/scripts/generate_points.py
+++ b/geomodelgrids/scripts/generate_points.py
@@ -1,4 +1,4 @@
-#!/usr/bin/env python
+#!/usr/bin/env python3
 # ======================================================================
 #
 #                           Brad T. Aagaard
@@ -56,7 +56,7 @@ class Block(object):
         domain_bot = -self.domain_z
         if topography is not None:
             topoG = self._getBlockTopography(topography)
-            for i in xrange(self.num_z):
+            for i in range(self.num_z):
                 z[:,:,i] = domain_bot + (topoG-domain_bot)/(domain_top-domain_bot)*(self.z_top - z[:,:,i] - domain_bot)
 
             # Move top points down
@@ -126,8 +126,8 @@ class Model(object):
         
         :param config_filename: Name of model configuration (INI format) file.
         """
-        import ConfigParser
-        parser = ConfigParser.ConfigParser()
+        import configparser
+        parser = configparser.ConfigParser()
         parser.read(config_filename)
         self.description = parser.get("geomodelgrids", "description")
         self.key = parser.get("geomodelgrids", "key")
-- 
2.43.0


From afe54a6054b7c2902444de65e7529c6997562cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 68/70] fix: points missing in generate_points because of
 roundoff

---
 geomodelgrids/scripts/generate_points.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/scripts/generate_points.py b/geomodelgrids/scripts/generate_points.py
index b5c6ed7..be2a148 100755
--- a/geomodelgrids/scripts/generate_points.py
+++ b/geomodelgrids/scripts/generate_points.py
@@ -12,6 +12,13 @@ import logging
 import numpy
 import os
     
+def _num_points(length, resolution):
+    """Get number of points along axis with uniform resolution, allowing for roundoff in the quotient.
+    """
+    TOLERANCE = 1.0e-6  # Relative to resolution
+    return 1 + int(length / resolution + TOLERANCE)
+
+
 class Block(object):
     """Uniform resolution gridded block within a model.
     """
@@ -34,9 +41,9 @@ class Block(object):
         self.z_top_offset = z_top_offset
         self.domain_z = domain_z
         
-        self.num_x = 1 + int(domain_x / self.res_horiz)
-        self.num_y = 1 + int(domain_y / self.res_horiz)
-        self.num_z = 1 + int((self.z_top-self.z_bot) / self.res_vert)
+        self.num_x = _num_points(domain_x, self.res_horiz)
+        self.num_y = _num_points(domain_y, self.res_horiz)
+        self.num_z = _num_points(self.z_top-self.z_bot, self.res_vert)
         return
 
     def points(self, y_azimuth, origin_x, origin_y, topography):
-- 
2.43.0


From d9cfac1c6ccddeaea44239ae98eb214140a47f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 69/70] fix: value for missing elevations was converted to the
 vertical units of the points

---
 libsrc/geomodelgrids/serial/Model.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 7b89f1b..6e24e19 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -7,7 +7,7 @@
 #include "geomodelgrids/serial/Surface.hh" // USES Surface
 #include "geomodelgrids/serial/Block.hh" // USES Block
 #include "geomodelgrids/utils/CRSTransformer.hh" // USES CRSTransformer
-#include "geomodelgrids/utils/constants.hh" // USES TOLERANCE
+#include "geomodelgrids/utils/constants.hh" // USES TOLERANCE, NODATA_VALUE
 
 #include <cstring> // USES strlen()
 #include <strings.h> // USES strcasecmp()
@@ -421,6 +421,9 @@ geomodelgrids::serial::Model::queryTopElevation(const double x,
         double yModel = 0.0;
         _toModelXYZ(&xModel, &yModel, nullptr, x, y, 0.0);
         const double zModelCRS = _surfaceTop->query(xModel, yModel);
+        if (NODATA_VALUE == zModelCRS) {
+            return NODATA_VALUE;
+        } // if
 
         const double yazimuthRad = _yazimuth * M_PI / 180.0;
         const double cosAz = cos(yazimuthRad);
@@ -454,6 +457,9 @@ geomodelgrids::serial::Model::queryTopoBathyElevation(const double x,
         double yModel = 0.0;
         _toModelXYZ(&xModel, &yModel, nullptr, x, y, 0.0);
         const double zModelCRS = (_surfaceTopoBathy) ? _surfaceTopoBathy->query(xModel, yModel) : _surfaceTop->query(xModel, yModel);
+        if (NODATA_VALUE == zModelCRS) {
+            return NODATA_VALUE;
+        } // if
 
         const double yazimuthRad = _yazimuth * M_PI / 180.0;
         const double cosAz = cos(yazimuthRad);
-- 
2.43.0


From 2f953465e838c2049d408a8c0af4c0e5b3f35d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 70/70] fix: documentation of squashing used an option that
 geomodelgrids_query does not have

---
 docs/user/features/squashing.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/user/features/squashing.md b/docs/user/features/squashing.md
index 967a81f..e8337de 100644
--- a/docs/user/features/squashing.md
+++ b/docs/user/features/squashing.md
@@ -68,7 +68,7 @@ geomodelgrids_query \
 --models=my_model_with_topography.h5 \
 --points=points_flat.in \
 --output=points_flat.out \
---min-squash-elev=-10.0e+3
+--squash-min-elev=-10.0e+3
 
 # Input: points_flat.in
 37.455  -121.941      0.0
-- 
2.43.0

