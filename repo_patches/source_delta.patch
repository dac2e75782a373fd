From c27ffdf285e454aab96435ab564f10b22ae197c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 01/56] fix: only check interior cells for validity

With a process grid that splits more than one direction the corner ghost cells
are never filled, so gas dynamics runs were stopped after the first step
because those cells hold zero density.
---
 alsfvm/include/alsfvm/volume/volume_foreach.hpp | 10 ++++++++--
 alsfvm/src/equation/CPUCellComputer.cpp         |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/volume_foreach.hpp b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
index 67c506d..03aa9c3 100644
--- a/alsfvm/include/alsfvm/volume/volume_foreach.hpp
+++ b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
@@ -286,10 +286,16 @@ inline void transform_volume(const Volume& in, Volume& out,
 ///    // Do something with in or index
 /// });
 /// \endcode
+/// \param in the volume to loop over
+/// \param function the function to call
+/// \param offsetStart the triple deciding the starting index
+/// \param offsetEnd the offset for end (must be non-negative!)
 ///
 template<class VariableStruct>
 inline void for_each_cell(const Volume& in,
-    const std::function<void(const VariableStruct&, size_t index)>& function) {
+    const std::function<void(const VariableStruct&, size_t index)>& function,
+    ivec3 offsetStart = {0, 0, 0},
+    ivec3 offsetEnd = {0, 0, 0}) {
     std::array < const real*, sizeof(VariableStruct) / sizeof(real) > pointersIn;
     pointersIn.fill(nullptr);
 
@@ -304,7 +310,7 @@ inline void for_each_cell(const Volume& in,
 
     for_each_cell_index(in, [&](size_t index) {
         function(expandVariableStruct<VariableStruct>(pointersIn, index), index);
-    });
+    }, offsetStart, offsetEnd);
 }
 
 ///
diff --git a/alsfvm/src/equation/CPUCellComputer.cpp b/alsfvm/src/equation/CPUCellComputer.cpp
index 86147d3..dd3079b 100644
--- a/alsfvm/src/equation/CPUCellComputer.cpp
+++ b/alsfvm/src/equation/CPUCellComputer.cpp
@@ -70,7 +70,9 @@ real CPUCellComputer<Equation>::computeMaxWaveSpeed(const volume::Volume&
 }
 
 ///
-/// Checks if all the constraints for the equation are met
+/// Checks if all the constraints for the equation are met. Ghost cells are not
+/// checked: the corner ghost cells are not part of the solution, and are never
+/// filled between two processes.
 /// \param conservedVariables the conserved variables (density, momentum, Energy for Euler)
 /// \param extraVariables the extra variables (pressure and velocity for Euler)
 /// \return true if it obeys the constraints, false otherwise
@@ -119,7 +121,8 @@ bool CPUCellComputer<Equation>::obeysConstraints(const volume::Volume&
             std::cerr << "Does not obey constraint at" << index << std::endl;
             obeys = false;
         }
-    });
+    }, conservedVariables.getNumberOfGhostCells(),
+    conservedVariables.getNumberOfGhostCells());
 
     return obeys;
 }
-- 
2.43.0


From 5cfd93e4c77e806ae7babd65ea37b868b146ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 02/56] fix: scale the net flux by the cell width of each
 direction

The integrators multiply the net flux by dt / dx only, so two and three
dimensional runs on cells with dx != dy (or dx != dz) solved a different
equation: the y and z fluxes were weighted with dt / dx as well.
---
 .../alsfvm/diffusion/TecnoDiffusionCPU.hpp    |  6 ++++-
 .../alsfvm/numflux/NumericalFluxCPU.hpp       | 13 +++++++----
 alsfvm/src/diffusion/DiffusionFactory.cpp     | 16 ++++++-------
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp    | 23 ++++++++++++-------
 alsfvm/src/numflux/NumericalFluxCPU.cpp       | 17 ++++++++++----
 5 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp b/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
index 5163c27..e03df37 100644
--- a/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
+++ b/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
@@ -42,7 +42,8 @@ public:
 
     TecnoDiffusionCPU(volume::VolumeFactory& volumeFactory,
         alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> reconstruction,
-        const simulator::SimulatorParameters& simulatorParameters);
+        const simulator::SimulatorParameters& simulatorParameters,
+        const rvec3& cellLengths);
 
     ///
     /// Applies numerical diffusion to the outputVolume given the data in conservedVolume.
@@ -78,6 +79,9 @@ private:
     alsfvm::shared_ptr<volume::Volume> entropyVariablesRight;
 
     Equation equation;
+
+    // The integrators divide the diffusion by the cell length in x direction
+    rvec3 cellLengths;
 };
 } // namespace diffusion
 } // namespace alsfvm
diff --git a/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp b/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
index aca52e8..1597f02 100644
--- a/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
+++ b/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
@@ -42,11 +42,12 @@ public:
 
     ///
     /// Computes the numerical flux at each cell.
-    /// This will compute the net flux in the cell, ie.
+    /// This will compute the net flux in the cell, relative to the cell length
+    /// in x direction, ie.
     /// \f[
-    /// \mathrm{output}_{i,j,k}=\frac{\Delta t}{\Delta x}\left(F(u_{i+1,j,k}, u_{i,j,k})-F(u_{i,j,k}, u_{i-1,j,k})\right)+
-    ///                         \frac{\Delta t}{\Delta y}\left(F(u_{i,j+1,k}, u_{i,j,k})-F(u_{i,j,k}, u_{i,j-1,k})\right)+
-    ///                         \frac{\Delta t}{\Delta z}\left((F(u_{i,j,k+1}, u_{i,j,k})-F(u_{i,j,k}, u_{i,j,k-1})\right)
+    /// \mathrm{output}_{i,j,k}=-\left(F(u_{i+1,j,k}, u_{i,j,k})-F(u_{i,j,k}, u_{i-1,j,k})\right)
+    ///                         -\frac{\Delta x}{\Delta y}\left(F(u_{i,j+1,k}, u_{i,j,k})-F(u_{i,j,k}, u_{i,j-1,k})\right)
+    ///                         -\frac{\Delta x}{\Delta z}\left((F(u_{i,j,k+1}, u_{i,j,k})-F(u_{i,j,k}, u_{i,j,k-1})\right)
     /// \f]
     /// \param[in] conservedVariables the conservedVariables to read from (eg. for Euler: \f$\rho,\; \vec{m},\; E\f$)
     /// \param[out] waveSpeed the maximum wave speed in each direction
@@ -80,6 +81,10 @@ private:
     alsfvm::shared_ptr<volume::Volume> temporaryVolume;
 
     typename Equation::Parameters parameters;
+
+    // The integrators divide the net flux by the cell length in x direction,
+    // so the net flux in direction d is multiplied by dx / d(direction).
+    rvec3 directionScaling{1, 1, 1};
 };
 
 } // namespace alsfvm
diff --git a/alsfvm/src/diffusion/DiffusionFactory.cpp b/alsfvm/src/diffusion/DiffusionFactory.cpp
index 721f2d2..055cdef 100644
--- a/alsfvm/src/diffusion/DiffusionFactory.cpp
+++ b/alsfvm/src/diffusion/DiffusionFactory.cpp
@@ -53,11 +53,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::burgers::Burgers, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::burgers::Burgers, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -66,11 +66,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<1>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<1>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -79,11 +79,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<2>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<2>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -92,11 +92,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<3>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<3>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index ef83a80..b9a4ee6 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -31,7 +31,8 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
     volume::Volume& left, volume::Volume& right,
     volume::Volume& entropyVariablesLeft,
     volume::Volume& entropyVariablesRight,
-    const volume::Volume& conservedVolume) {
+    const volume::Volume& conservedVolume,
+    const real scaling) {
 
     typename Equation::Views entropyLeftView(entropyVariablesLeft);
     typename Equation::Views entropyRightView(entropyVariablesRight);
@@ -92,8 +93,9 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         };
 
         //outFile << (diffusion(middleIndex, rightIndex) - diffusion(leftIndex, middleIndex))[1] << std::endl;
-        equation.addToViewAt(outputView, middleIndexOuter, diffusion(middleIndexOuter,
-                rightIndexOuter) - diffusion(leftIndexOuter, middleIndexOuter));
+        equation.addToViewAt(outputView, middleIndexOuter,
+            scaling * (diffusion(middleIndexOuter,
+                    rightIndexOuter) - diffusion(leftIndexOuter, middleIndexOuter)));
     }, make_direction_vector(direction), make_direction_vector(direction));
 
 }
@@ -102,13 +104,15 @@ template<class Equation, template<class, int> class DiffusionMatrix>
 TecnoDiffusionCPU<Equation, DiffusionMatrix>::TecnoDiffusionCPU(
     volume::VolumeFactory& volumeFactory,
     alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> reconstruction,
-    const simulator::SimulatorParameters& simulatorParameters)
+    const simulator::SimulatorParameters& simulatorParameters,
+    const rvec3& cellLengths)
 
     :
     volumeFactory(volumeFactory),
     reconstruction(reconstruction),
     equation(static_cast<const typename Equation::Parameters&>
-        (simulatorParameters.getEquationParameters())) {
+        (simulatorParameters.getEquationParameters())),
+    cellLengths(cellLengths) {
     // empty
 }
 
@@ -146,21 +150,24 @@ void TecnoDiffusionCPU<Equation, DiffusionMatrix>::applyDiffusion(
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume,
+                cellLengths.x / cellLengths.x);
         } else if (direction == 1) {
             applyDiffusionCPU<Equation, DiffusionMatrix, 1>(equation, outputVolume,
                 *reconstruction,
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume,
+                cellLengths.x / cellLengths.y);
         } else if (direction == 2) {
             applyDiffusionCPU<Equation, DiffusionMatrix, 2>(equation, outputVolume,
                 *reconstruction,
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume,
+                cellLengths.x / cellLengths.z);
         }
     }
 
diff --git a/alsfvm/src/numflux/NumericalFluxCPU.cpp b/alsfvm/src/numflux/NumericalFluxCPU.cpp
index eb0b084..875ded3 100644
--- a/alsfvm/src/numflux/NumericalFluxCPU.cpp
+++ b/alsfvm/src/numflux/NumericalFluxCPU.cpp
@@ -35,7 +35,7 @@ void computeNetFlux(const Equation& eq, const volume::Volume& left,
     volume::Volume& out,
     volume::Volume& temporaryVolume,
     real& waveSpeed, size_t numberOfGhostCells,
-    const ivec3 start, const ivec3 end) {
+    const ivec3 start, const ivec3 end, const real scaling) {
 
     ALSVINN_TIME_BLOCK(alsvinn, fvm, numflux);
     // We will automate the creation of these pointer arrays soon,
@@ -110,7 +110,8 @@ void computeNetFlux(const Equation& eq, const volume::Volume& left,
                 auto fluxLeftMiddle = (-1.0) * eq.fetchConservedVariables(temporaryViews,
                         middleIndex);
 
-                eq.addToViewAt(outViews, rightIndex, fluxMiddleRight + fluxLeftMiddle);
+                eq.addToViewAt(outViews, rightIndex,
+                    scaling * (fluxMiddleRight + fluxLeftMiddle));
 
             }
         }
@@ -160,6 +161,12 @@ NumericalFluxCPU<Flux, Equation, dimension>::NumericalFluxCPU(
     static_assert(dimension < 4, "We only support dimension up to 3");
 
 
+    const rvec3 cellLengths = grid.getCellLengths();
+
+    for (size_t direction = 1; direction < dimension; ++direction) {
+        directionScaling[direction] = cellLengths.x / cellLengths[direction];
+    }
+
     createVolumes(grid.getDimensions().x,
         grid.getDimensions().y,
         grid.getDimensions().z,
@@ -197,7 +204,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         *left, *right, start, end);
     computeNetFlux<Flux, Equation, 0>(eq, *left, *right, output,
         *temporaryVolume, waveSpeed.x,
-        getNumberOfGhostCells(), start, end);
+        getNumberOfGhostCells(), start, end, directionScaling.x);
 
     if (dimension > 1) {
         reconstruction->performReconstruction(conservedVariables, 1, 0,
@@ -205,7 +212,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         computeNetFlux<Flux, Equation, 1>(eq, *left, *right, output,
             *temporaryVolume,
             waveSpeed.y, getNumberOfGhostCells(),
-            start, end);
+            start, end, directionScaling.y);
     }
 
 
@@ -215,7 +222,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         computeNetFlux<Flux, Equation, 2>(eq, *left, *right, output,
             *temporaryVolume, waveSpeed.z,
             getNumberOfGhostCells(),
-            start, end);
+            start, end, directionScaling.z);
     }
 
 }
-- 
2.43.0


From 4fefca59a68bf06e22f00051d90ea4b94fe0fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 03/56] fix: name the netcdf dimensions in the order the data
 is stored

The data is written with x varying fastest, but the variables were defined with
dimensions (x, y, z). This labelled the axes wrongly, and for non-square grids
the write failed. The order is decided from the global size, so that all
processes agree on it also when the local grid has a single cell in y or z.
---
 alsfvm/src/io/NetCDFMPIWriter.cpp | 37 +++++++++++++++----------------
 alsfvm/src/io/NetCDFWriter.cpp    | 12 +++++++---
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/alsfvm/src/io/NetCDFMPIWriter.cpp b/alsfvm/src/io/NetCDFMPIWriter.cpp
index 2e51280..57c64f4 100644
--- a/alsfvm/src/io/NetCDFMPIWriter.cpp
+++ b/alsfvm/src/io/NetCDFMPIWriter.cpp
@@ -28,6 +28,20 @@
 namespace alsfvm {
 namespace io {
 
+namespace {
+// The data is stored with x varying fastest, while netcdf stores the last
+// dimension fastest. We need to reverse the order of the active dimensions, and
+// every process must agree on the order, hence we look at the global size.
+template<class Vector>
+void swapToNetcdfOrder(Vector& vector, const grid::Grid& grid) {
+    if (grid.getGlobalSize()[2] > 1) {
+        std::swap(vector[0], vector[2]);
+    } else if (grid.getGlobalSize()[1] > 1) {
+        std::swap(vector[0], vector[1]);
+    }
+}
+}
+
 NetCDFMPIWriter::NetCDFMPIWriter(const std::string& basefileName,
     const std::vector<std::string>& groupNames,
     size_t groupIndex, bool newFile,
@@ -116,9 +130,8 @@ NetCDFMPIWriter::dimension_vector NetCDFMPIWriter::createDimensions(
         NETCDF_SAFE_CALL(ncmpi_inq_dimid(baseGroup, "z", &zdim));
     }
 
-    dimensions[0] = xdim;
-    dimensions[1] = ydim;
-    dimensions[2] = zdim;
+    dimensions = {xdim, ydim, zdim};
+    swapToNetcdfOrder(dimensions, grid);
 
     return dimensions;
 }
@@ -194,22 +207,8 @@ void NetCDFMPIWriter::writeMemory(netcdf_raw_ptr baseGroup,
     auto globalPosition = alsutils::mpi::to_mpi_offset(grid.getGlobalPosition());
     auto localSize = alsutils::mpi::to_mpi_offset(grid.getDimensions());
 
-    // we need to exhcange the order since netcdf uses y major.
-    if (grid.getActiveDimension() == 2) {
-        std::swap(globalPosition[0], globalPosition[1]);
-        std::swap(localSize[0], localSize[1]);
-    }
-
-    // we need to exhcange the order since netcdf uses z major.
-    if (grid.getActiveDimension() == 3) {
-        std::swap(globalPosition[0], globalPosition[2]);
-        std::swap(localSize[0], localSize[2]);
-
-        //std::swap(globalPosition[2], globalPosition[1]);
-        //std::swap(localSize[2], localSize[1]);
-
-
-    }
+    swapToNetcdfOrder(globalPosition, grid);
+    swapToNetcdfOrder(localSize, grid);
 
     NETCDF_SAFE_CALL(::alsfvm::io::ncmpi_put_vara_real_all(baseGroup, dataset,
             globalPosition.data(),
diff --git a/alsfvm/src/io/NetCDFWriter.cpp b/alsfvm/src/io/NetCDFWriter.cpp
index dbd0ebd..fbd5506 100644
--- a/alsfvm/src/io/NetCDFWriter.cpp
+++ b/alsfvm/src/io/NetCDFWriter.cpp
@@ -84,9 +84,15 @@ std::array<netcdf_raw_ptr, 3> NetCDFWriter::createDimensions(
     NETCDF_SAFE_CALL(nc_def_dim(baseGroup, "z", volume.getNumberOfZCells(),
             &zdim));
 
-    dimensions[0] = xdim;
-    dimensions[1] = ydim;
-    dimensions[2] = zdim;
+    // The data is stored with x varying fastest, and netcdf stores the last
+    // dimension fastest, so we need to reverse the order of the active dimensions
+    dimensions = {xdim, ydim, zdim};
+
+    if (volume.getNumberOfZCells() > 1) {
+        std::swap(dimensions[0], dimensions[2]);
+    } else if (volume.getNumberOfYCells() > 1) {
+        std::swap(dimensions[0], dimensions[1]);
+    }
 
     return dimensions;
 
-- 
2.43.0


From 7eaa646be303cf5b510d1c6f56065e7315614733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 04/56] fix: loop over every interior cell in structure
 functions

getNumberOfXCells does not include the ghost cells, so subtracting them again
skipped the cells next to the boundary.
---
 alsfvm/src/functional/StructureBase.cpp | 6 +++---
 alsuq/src/stats/StructureTwoPoints.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index d66624a..85d182f 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -53,9 +53,9 @@ void StructureBase::computeStructure(volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index 2176920..ea22539 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -65,9 +65,9 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
-- 
2.43.0


From 3733422de52b80a0683560182f0187585990d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 05/56] fix: use direction2 for the second offset of
 structure_2pt

---
 alsuq/src/stats/StructureTwoPoints.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index ea22539..bfbca1c 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -82,10 +82,10 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
                                 std::min(k + h1 * directionVector1.z, nz - 1) + ngz);
 
                         for (int h2 = 0; h2 < int(numberOfH); ++h2) {
-                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector1.x,
+                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector2.x,
                                         nx - 1) % nx + ngx,
-                                    std::min(j + h2 * directionVector1.y, ny - 1) % ny + ngy,
-                                    std::min(k + h2 * directionVector1.z, nz - 1) % nz + ngz);
+                                    std::min(j + h2 * directionVector2.y, ny - 1) % ny + ngy,
+                                    std::min(k + h2 * directionVector2.z, nz - 1) % nz + ngz);
 
 
                             outputView.at(h1, h2, 0) += (u_ijk_h1 - u_ijk) * (u_ijk_h1 - u_ijk) *
-- 
2.43.0


From 427ffbbe207eca46932498e316fe5c8fdab0d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 06/56] fix: accumulate bv_direction over the samples

---
 alsuq/src/stats/BoundedVariationDirection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/BoundedVariationDirection.cpp b/alsuq/src/stats/BoundedVariationDirection.cpp
index 33b1456..41b0d91 100644
--- a/alsuq/src/stats/BoundedVariationDirection.cpp
+++ b/alsuq/src/stats/BoundedVariationDirection.cpp
@@ -58,18 +58,18 @@ void BoundedVariationDirection::computeStatistics(const alsfvm::volume::Volume&
 
     for (size_t var = 0; var < conservedVariables.getNumberOfVariables(); ++var) {
         bvX.getVolumes().getConservedVolume()->getScalarMemoryArea(var)->getPointer()[0]
-            = conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
+            += conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
                     end);
 
         if (conservedVariables.getDimensions() > 1) {
             bvY.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(1, p, start, end);
         }
 
         if (conservedVariables.getDimensions() > 2) {
             bvZ.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(2, p, start, end);
         }
 
-- 
2.43.0


From 206598aaa344392b8199dec54d5cb4c29459fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 07/56] fix: apply the weight in the structure functionals

The functional contract is out += weight * f(in), which the time integration
relies on. The structure functionals ignored the weight, and structure_cube
overwrote what was accumulated.
---
 .../alsfvm/functional/StructureBase.hpp       |  2 +-
 .../alsfvm/functional/structure_common.hpp    | 24 ++++++++++---------
 alsfvm/src/functional/StructureBase.cpp       |  6 ++---
 alsfvm/src/functional/StructureCube.cpp       |  6 ++---
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/alsfvm/include/alsfvm/functional/StructureBase.hpp b/alsfvm/include/alsfvm/functional/StructureBase.hpp
index 9166324..131bdd5 100644
--- a/alsfvm/include/alsfvm/functional/StructureBase.hpp
+++ b/alsfvm/include/alsfvm/functional/StructureBase.hpp
@@ -61,7 +61,7 @@ public:
 private:
 
     void computeStructure(alsfvm::volume::Volume& outputVolume,
-        const alsfvm::volume::Volume& input);
+        const alsfvm::volume::Volume& input, const real weight);
 
     const size_t direction;
     const real p;
diff --git a/alsfvm/include/alsfvm/functional/structure_common.hpp b/alsfvm/include/alsfvm/functional/structure_common.hpp
index b818f83..4546843 100644
--- a/alsfvm/include/alsfvm/functional/structure_common.hpp
+++ b/alsfvm/include/alsfvm/functional/structure_common.hpp
@@ -108,10 +108,10 @@ __device__ __host__ void computeStructureCube(
     output,
     const alsfvm::memory::View<const real>& input,
     int i, int j, int k, int h, int nx, int ny, int nz,
-    int ngx, int ngy, int ngz, int dimensions, real p) {
+    int ngx, int ngy, int ngz, int dimensions, real p, real weight = 1) {
 
     forEachPointInComputeStructureCube<BoundaryType>([&](double u, double u_h) {
-        output.at(h) += PowerClass::power(fabs(u - u_h), p) / (nx * ny * nz);
+        output.at(h) += weight * PowerClass::power(fabs(u - u_h), p) / (nx * ny * nz);
     }, input, i, j, k, h, nx, ny, nz, ngx, ngy, ngz, dimensions);
 }
 
@@ -120,7 +120,8 @@ __device__ __host__ void computeStructureCube(
 
 template<alsfvm::boundary::Type BoundaryType, class PowerClass>
 inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
-    const alsfvm::volume::Volume& input, int numberOfH, double p) {
+    const alsfvm::volume::Volume& input, int numberOfH, double p,
+    real weight = 1) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -140,7 +141,7 @@ inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
 
                         computeStructureCube<BoundaryType, PowerClass>(outputView, inputView, i, j, k,
                             h, nx, ny, nz,
-                            ngx, ngy, ngz, input.getDimensions(), p);
+                            ngx, ngy, ngz, input.getDimensions(), p, weight);
 
                     }
                 }
@@ -155,27 +156,28 @@ inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
 
 template<alsfvm::boundary::Type BoundaryType>
 inline void dispatchComputeStructureCubeCPU(alsfvm::volume::Volume& output,
-    const alsfvm::volume::Volume& input, int numberOfH, double p) {
+    const alsfvm::volume::Volume& input, int numberOfH, double p,
+    real weight = 1) {
     if (p == 1.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<1>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 2.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<2>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     }
 
     else if (p == 3.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<3>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 4.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<4>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 5.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<5>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else {
         computeStructureCubeCPU <BoundaryType, alsutils::math::PowPower>
-        (output, input, numberOfH, p);
+        (output, input, numberOfH, p, weight);
     }
 }
 
diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index 85d182f..0ceabfe 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -34,7 +34,7 @@ void StructureBase::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
     computeStructure(conservedVolumeOut,
-        conservedVolumeIn);
+        conservedVolumeIn, weight);
 
 }
 
@@ -44,7 +44,7 @@ ivec3 StructureBase::getFunctionalSize(const grid::Grid& grid) const {
 }
 
 void StructureBase::computeStructure(volume::Volume& output,
-    const volume::Volume& input) {
+    const volume::Volume& input, const real weight) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -76,7 +76,7 @@ void StructureBase::computeStructure(volume::Volume& output,
 
 
 
-                        outputView.at(h, 0, 0) += std::pow(std::abs(u_ijk - u_ijk_h),
+                        outputView.at(h, 0, 0) += weight * std::pow(std::abs(u_ijk - u_ijk_h),
                                 p) / (nx * ny * nz);
                     }
                 }
diff --git a/alsfvm/src/functional/StructureCube.cpp b/alsfvm/src/functional/StructureCube.cpp
index d12ca32..e2a1a36 100644
--- a/alsfvm/src/functional/StructureCube.cpp
+++ b/alsfvm/src/functional/StructureCube.cpp
@@ -33,8 +33,6 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
 
-    conservedVolumeOut.makeZero();
-
     const auto boundaryConditions = grid.getBoundaryCondition(0);
 
     for (auto boundaryConditionOnSide : grid.getActiveBoundaryConditions()) {
@@ -48,12 +46,12 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     if (boundaryConditions == alsfvm::boundary::PERIODIC) {
         dispatchComputeStructureCubeCPU<alsfvm::boundary::PERIODIC>(conservedVolumeOut,
             conservedVolumeIn,
-            numberOfH, p);
+            numberOfH, p, weight);
 
     } else if (boundaryConditions == alsfvm::boundary::NEUMANN) {
         dispatchComputeStructureCubeCPU<alsfvm::boundary::NEUMANN>(conservedVolumeOut,
             conservedVolumeIn,
-            numberOfH, p);
+            numberOfH, p, weight);
 
     } else {
         THROW("Unsupported boundary condition for StructureCube structure functions. "
-- 
2.43.0


From 70aa867e59adfa94a9ea6bd51159ab80cca94498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 08/56] fix: allocate ghost cells for functional statistics
 that need them

The moment functional adds whole volumes, and the sizes did not match.
---
 alsuq/src/stats/FunctionalStatistics.cpp               | 9 ++++++++-
 alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/alsuq/src/stats/FunctionalStatistics.cpp b/alsuq/src/stats/FunctionalStatistics.cpp
index 9db32be..90b6164 100644
--- a/alsuq/src/stats/FunctionalStatistics.cpp
+++ b/alsuq/src/stats/FunctionalStatistics.cpp
@@ -48,7 +48,14 @@ void FunctionalStatistics::computeStatistics(
 
 
     auto gridFunctional = functional->getFunctionalSize(grid);
-    auto& functionalData = this->findOrCreateSnapshot(statisticsNames[0],
+    // Some functionals work on the whole volume, including ghost cells
+    const bool includeGhostCells = functional->getGhostCellSizes(grid,
+            conservedVariables).x > 0;
+    auto& functionalData = includeGhostCells ?
+        this->findOrCreateSnapshot(statisticsNames[0],
+            timestepInformation,
+            conservedVariables) :
+        this->findOrCreateSnapshot(statisticsNames[0],
             timestepInformation,
             conservedVariables,
             gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
diff --git a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
index cf2f41f..47ed8cb 100644
--- a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
+++ b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
@@ -56,7 +56,14 @@ void TimeIntegratedFunctionalStatistics::computeStatistics(
     const double currentTime = timestepInformation.getCurrentTime();
 
     auto gridFunctional = functional->getFunctionalSize(grid);
-    auto& functionalTime = this->findOrCreateSnapshot(statisticsNames[0],
+    // Some functionals work on the whole volume, including ghost cells
+    const bool includeGhostCells = functional->getGhostCellSizes(grid,
+            conservedVariables).x > 0;
+    auto& functionalTime = includeGhostCells ?
+        this->findOrCreateSnapshot(statisticsNames[0],
+            fixedTimestepInformation,
+            conservedVariables) :
+        this->findOrCreateSnapshot(statisticsNames[0],
             fixedTimestepInformation,
             conservedVariables,
             gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
-- 
2.43.0


From 4e5475852e28292407da4571e5395f6b001ef952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 09/56] fix: place the functional output of each process by its
 node position

The position of the process was given in cells of the computational grid, which
is outside of the output when the functional is smaller than the grid.
---
 alsfvm/src/functional/IntervalFunctionalWriter.cpp  | 3 ++-
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/functional/IntervalFunctionalWriter.cpp b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
index 5be53bd..96552d3 100644
--- a/alsfvm/src/functional/IntervalFunctionalWriter.cpp
+++ b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
@@ -45,11 +45,12 @@ void IntervalFunctionalWriter::write(const volume::Volume& conservedVariables,
             timestepInformation);
     } else {
         const ivec3 numberOfNodes = grid.getGlobalSize() / grid.getDimensions();
+        const ivec3 nodePosition = grid.getGlobalPosition() / grid.getDimensions();
         grid::Grid modifiedGrid(grid.getOrigin(),
             grid.getTop(),
             functionalSize,
             grid.getBoundaryConditions(),
-            grid.getGlobalPosition(),
+            nodePosition * functionalSize,
             numberOfNodes * functionalSize);
 
         ALSVINN_LOG(INFO, "modifiedGrid.getDimensions().x = " <<
diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 1fde1c9..d7483ab 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -51,11 +51,12 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
 void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
     const ivec3 numberOfNodes = grid.getGlobalSize() / grid.getDimensions();
+    const ivec3 nodePosition = grid.getGlobalPosition() / grid.getDimensions();
     grid::Grid smallerGrid(grid.getOrigin(),
         grid.getTop(),
         functionalSize,
         grid.getBoundaryConditions(),
-        grid.getGlobalPosition(),
+        nodePosition * functionalSize,
         numberOfNodes * functionalSize);
 
     writer->write(*conservedVolume, smallerGrid, timestepInformation);
-- 
2.43.0


From dd70ada6a20ab290b0e1c622bede1a6a7b5f1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 10/56] fix: draw the same parameters for a sample regardless
 of the sample split

With several parameters the random numbers of a sample depended on which samples
the process had drawn before.
---
 .../alsuq/generator/GeneratorFactory.hpp      |  5 +++-
 alsuq/include/alsuq/generator/STLMersenne.hpp | 10 +++++---
 alsuq/src/config/Setup.cpp                    | 23 +++++++++++++++++--
 alsuq/src/generator/GeneratorFactory.cpp      |  5 ++--
 alsuq/src/generator/STLMersenne.cpp           |  5 ++--
 5 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/alsuq/include/alsuq/generator/GeneratorFactory.hpp b/alsuq/include/alsuq/generator/GeneratorFactory.hpp
index 65bca59..c46aaa1 100644
--- a/alsuq/include/alsuq/generator/GeneratorFactory.hpp
+++ b/alsuq/include/alsuq/generator/GeneratorFactory.hpp
@@ -27,11 +27,14 @@ public:
     //! \param name the name of the generator
     //! \param dimensions the number of dimensions to use
     //! \param numberVariables number of random variables to draw (relevant for QMC)
+    //! \param offset the first dimension to use for this generator. Used when
+    //!        several parameters share the dimensions.
     //! \return the new generator
     //!
     std::shared_ptr<Generator> makeGenerator(const std::string& name,
         const size_t dimensions,
-        const size_t numberVariables
+        const size_t numberVariables,
+        const size_t offset = 0
     );
 
 
diff --git a/alsuq/include/alsuq/generator/STLMersenne.hpp b/alsuq/include/alsuq/generator/STLMersenne.hpp
index 821213b..0c19b4c 100644
--- a/alsuq/include/alsuq/generator/STLMersenne.hpp
+++ b/alsuq/include/alsuq/generator/STLMersenne.hpp
@@ -22,11 +22,14 @@ namespace generator {
 
 //! Uses the C++ STL implementation to generate random numbers
 //!
-//! @todo This needs to be fixed for multiple users (ie. when multiple
-//! instances uses this, it will not work properly with the sample fast forwarding)
+//! All instances share the same stream of numbers. When there are several
+//! instances, each of them uses its own components of every sample: they must
+//! be created with the same (total) dimension and with disjoint offsets.
 class STLMersenne : public Generator {
 public:
-    STLMersenne(size_t dimension);
+    //! @param dimension the total number of components in a sample
+    //! @param offset the first component used by this instance
+    STLMersenne(size_t dimension, size_t offset = 0);
 
     //! Generates the next random number
     real generate(size_t component, size_t sample) override;
@@ -37,6 +40,7 @@ private:
     std::uniform_real_distribution<real> distribution{0.0, 1.0};
 
     const long dimension;
+    const long offset;
 };
 } // namespace generator
 } // namespace alsuq
diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 5eec072..ed42282 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -159,6 +159,25 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     generator::GeneratorFactory generatorFactory;
     distribution::DistributionFactory distributionFactory;
 
+    // All the parameters are drawn from the same stream of random numbers, in the
+    // order of their names. We need to give each parameter its own part of a
+    // sample, otherwise the numbers will depend on which samples we have drawn
+    // so far.
+    std::map<std::string, size_t> offsets;
+
+    for (auto parameterNode : parametersNode) {
+        offsets[parameterNode.second.get<std::string>("name")] =
+            parameterNode.second.get<size_t>("length");
+    }
+
+    size_t totalLength = 0;
+
+    for (auto& offset : offsets) {
+        const auto length = offset.second;
+        offset.second = totalLength;
+        totalLength += length;
+    }
+
     for (auto parameterNode : parametersNode) {
         auto name = parameterNode.second.get<std::string>("name");
         auto length = parameterNode.second.get<size_t>("length");
@@ -181,8 +200,8 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
                 parametersToDistribution);
 
 
-        auto generator = generatorFactory.makeGenerator(generatorName, length,
-                numberOfSamples);
+        auto generator = generatorFactory.makeGenerator(generatorName, totalLength,
+                numberOfSamples, offsets[name]);
         generators[name] = std::make_pair(length, std::make_pair(generator,
                     distribution));
     }
diff --git a/alsuq/src/generator/GeneratorFactory.cpp b/alsuq/src/generator/GeneratorFactory.cpp
index 3996f47..e99a7ca 100644
--- a/alsuq/src/generator/GeneratorFactory.cpp
+++ b/alsuq/src/generator/GeneratorFactory.cpp
@@ -23,12 +23,13 @@ namespace generator {
 std::shared_ptr<Generator> GeneratorFactory::makeGenerator(
     const std::string& name,
     const size_t dimensions,
-    const size_t numberVariables
+    const size_t numberVariables,
+    const size_t offset
 ) {
 
     if (name == "stlmersenne") {
         return std::dynamic_pointer_cast<Generator>(std::make_shared<STLMersenne>
-                (dimensions));
+                (dimensions, offset));
     } else {
         THROW("Unknown generator " << name);
     }
diff --git a/alsuq/src/generator/STLMersenne.cpp b/alsuq/src/generator/STLMersenne.cpp
index 0480aa8..5101bfc 100644
--- a/alsuq/src/generator/STLMersenne.cpp
+++ b/alsuq/src/generator/STLMersenne.cpp
@@ -30,12 +30,13 @@ std::pair<std::mt19937_64, long>& getGeneratorInstance() {
 }
 
 
-STLMersenne::STLMersenne(size_t dimension)
-    : generator(getGeneratorInstance()), dimension(dimension) {
+STLMersenne::STLMersenne(size_t dimension, size_t offset)
+    : generator(getGeneratorInstance()), dimension(dimension), offset(offset) {
 
 }
 
 real STLMersenne::generate(size_t component, size_t sample) {
+    component += offset;
 
     if (long(component) >= long(dimension)) {
         THROW("Component given higher than dimension. component = "
-- 
2.43.0


From 29d98336a39da5311b2c8d97d25b676147ccd82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 11/56] fix: use the left flux in HLL3 when the left wave
 stands still

The flux was zero for an exactly sonic state, which is not consistent.
---
 alsfvm/include/alsfvm/numflux/euler/HLL3.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
index 9639dba..1fc0b3c 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
@@ -79,9 +79,7 @@ public:
                 left.m ) / aa;
         us[direction] = sm;
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             F = fluxLeft;
         } else if (speedRight < 0) {
             F = fluxRight;
-- 
2.43.0


From 8eb010728236639ed9c27e39dc297d8e9fe51dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 12/56] fix: rotate the Euler eigenvectors back to the original
 coordinates

The eigenvectors in y and z were computed in a rotated frame and left there, so
that the numerical diffusion mixed up the momentum components.
---
 .../include/alsfvm/equation/euler/Euler.hpp   | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index d252918..d60985c 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -460,6 +460,19 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
         matrixWithEigenVectors(4, 3) = primitive.u.z;
         matrixWithEigenVectors(4, 4) = H + primitive.u.x * a;
 
+        // Rotate the eigenvectors back to the original coordinates
+        for (int column = 0; column < 5; ++column) {
+            const real mx = matrixWithEigenVectors(1, column);
+
+            if (direction == 1) {
+                matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(2, column);
+                matrixWithEigenVectors(2, column) = mx;
+            } else if (direction == 2) {
+                matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(3, column);
+                matrixWithEigenVectors(3, column) = mx;
+            }
+        }
+
         return matrixWithEigenVectors.normalized();
     }
 
@@ -544,6 +557,15 @@ __device__ __host__ matrix4 Euler<2>::computeEigenVectorMatrix(
         matrixWithEigenVectors(3, 2) = primitive.u.y;
         matrixWithEigenVectors(3, 3) = H + primitive.u.x * a;
 
+        if (direction == 1) {
+            // Rotate the eigenvectors back to the original coordinates
+            for (int column = 0; column < 4; ++column) {
+                const real mx = matrixWithEigenVectors(1, column);
+                matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(2, column);
+                matrixWithEigenVectors(2, column) = mx;
+            }
+        }
+
         return matrixWithEigenVectors;
     }
 
-- 
2.43.0


From f359f2ba031fb7650607d3eda29a393aec352d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 13/56] fix: compute the logarithmic mean of almost equal
 states in the tecno flux

The mean of equal values was taken to be zero, so the flux vanished for states
with equal density and pressure, and it was inaccurate for almost equal values.
---
 alsfvm/include/alsfvm/numflux/tecno_utils.hpp | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
index 33c3a5d..1f16a94 100644
--- a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
+++ b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
@@ -26,24 +26,25 @@ inline __device__ __host__ real bar(real left, real right) {
 inline __device__ __host__ real diff(real left, real right) {
     return right - left;
 }
+
+//! Computes the logarithmic mean of left and right. The mean is computed in a
+//! numerically stable way, also when left and right are (almost) equal, see Appendix B of
+//! Ismail and Roe, Affordable, entropy-consistent Euler flux functions II (2009)
 inline __device__ __host__ real ln(real left, real right) {
-    if (diff(left, right) == 0 || diff(log(left), log(right)) == 0) {
-        return 0;
+    const real f = diff(left, right) / (left + right);
+    const real f2 = f * f;
+
+    if (f2 < 1e-4) {
+        return bar(left, right) / (1 + f2 * (1.0 / 3.0 + f2 * (1.0 / 5.0 + f2 *
+                        (1.0 / 7.0 + f2 / 9.0))));
     }
 
     return diff(left, right) / diff(log(left), log(right));
 }
 
-//! Computes F/ln (left, right), but takes care if divLn==0,
-//! then it returns 0
+//! Computes F/ln (left, right)
 inline __device__ __host__ real divLn(real left, real right, real F) {
-    auto div = ln(left, right);
-
-    if (div == 0) {
-        return 0;
-    } else {
-        return F / div;
-    }
+    return F / ln(left, right);
 }
 
 inline __device__ __host__ real div(real a, real b) {
-- 
2.43.0


From 150afe8455ce4edab77d89fbf9587c1a7ebb90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 14/56] fix: compute all momentum components in the three
 dimensional tecno1 flux

The flux assumed two dimensions, and was not set at all in the z direction.
---
 .../include/alsfvm/numflux/euler/Tecno1.hpp   | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
index 19706ad..28f3c76 100644
--- a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
@@ -62,24 +62,23 @@ __device__ __host__ inline  real Tecno1<3>::computeFlux(
 
     if (left == right) {
         eq.computePointFlux<direction>(left, F);
-    } else if (direction == 0) {
-        F[0] = bar(leftZ[1], rightZ[1]) * ln(leftZ[4], rightZ[4]);
-        F[1] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[1],
-                rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
-        F[4] = 1.0 / (2 * bar(leftZ[0],
-                    rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
-    } else  if (direction == 1) {
-        F[0] = bar(leftZ[2], rightZ[2]) * ln(leftZ[4], rightZ[4]);
-        F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[2] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[2],
-                rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+    } else {
+        const real rho = ln(leftZ[4], rightZ[4]);
+        const real pressure = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]);
+
+        F[0] = bar(leftZ[direction + 1], rightZ[direction + 1]) * rho;
+
+        for (int component = 1; component < 4; ++component) {
+            F[component] = bar(leftZ[component], rightZ[component]) / bar(leftZ[0],
+                    rightZ[0]) * F[0];
+        }
+
+        F[direction + 1] += pressure;
+
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     }
 
     real leftSpeed = 0, rightSpeed = 0;
-- 
2.43.0


From 59a7f82e7ae0799ac7c02b20108ea5048271c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 15/56] fix: do not cut off negative values in the Roe flux for
 the linear equation

---
 alsfvm/include/alsfvm/numflux/linear/Roe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
index d9891ff..720d69b 100644
--- a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
+++ b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
@@ -43,7 +43,7 @@ public:
 
 
         ConservedVariables fluxLeft;
-        eq.computePointFlux<direction>(AllVariables(fmax(left.u, real(0.0))), fluxLeft);
+        eq.computePointFlux<direction>(left, fluxLeft);
         F = fluxLeft;
 
         // This looks a bit weird, but it is OK. The basic principle is that AllVariables
-- 
2.43.0


From bfcb42ac9803c67fe5870a1f4618a4228068f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 16/56] fix: reconstruct only the requested region without
 reconstruction and with weno

The inner region is computed while the ghost cells are being received, hence the
reconstruction must not touch the ghost cells.
---
 alsfvm/src/reconstruction/NoReconstruction.cpp |  2 +-
 alsfvm/src/reconstruction/WENOCPU.cpp          | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/alsfvm/src/reconstruction/NoReconstruction.cpp b/alsfvm/src/reconstruction/NoReconstruction.cpp
index b2b5b0e..ef60ba6 100644
--- a/alsfvm/src/reconstruction/NoReconstruction.cpp
+++ b/alsfvm/src/reconstruction/NoReconstruction.cpp
@@ -58,7 +58,7 @@ void NoReconstruction::performReconstruction(const volume::Volume&
 
             pointerLeft[index] = pointerIn[index];
             pointerRight[index] = pointerIn[index];
-        });
+        }, start, -1 * end);
     }
 
 }
diff --git a/alsfvm/src/reconstruction/WENOCPU.cpp b/alsfvm/src/reconstruction/WENOCPU.cpp
index 567141a..aea49f5 100644
--- a/alsfvm/src/reconstruction/WENOCPU.cpp
+++ b/alsfvm/src/reconstruction/WENOCPU.cpp
@@ -98,13 +98,13 @@ void WENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
     assert((directionVector.y == 0) || (int(ny) > 2 * directionVector.y * order));
     assert((directionVector.z == 0) || (int(nz) > 2 * directionVector.z * order));
 
-    const size_t startX = directionVector.x * (order - 1);
-    const size_t startY = directionVector.y * (order - 1);
-    const size_t startZ = directionVector.z * (order - 1);
+    const size_t startX = directionVector.x * (order - 1) + start.x;
+    const size_t startY = directionVector.y * (order - 1) + start.y;
+    const size_t startZ = directionVector.z * (order - 1) + start.z;
 
-    const size_t endX = nx - directionVector.x * (order - 1);
-    const size_t endY = ny - directionVector.y * (order - 1);
-    const size_t endZ = nz - directionVector.z * (order - 1);
+    const size_t endX = nx - directionVector.x * (order - 1) + end.x;
+    const size_t endY = ny - directionVector.y * (order - 1) + end.y;
+    const size_t endZ = nz - directionVector.z * (order - 1) + end.z;
 
 
 
-- 
2.43.0


From 0f2475fdce5bd70b4a230cca626df0136f5314e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 17/56] fix: count the ghost cells for fluxes with a wide
 stencil and a reconstruction

Together with a reconstruction of order three or more, the wide stencils used
reconstructed values that were never computed.
---
 alsfvm/src/numflux/NumericalFluxCPU.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/numflux/NumericalFluxCPU.cpp b/alsfvm/src/numflux/NumericalFluxCPU.cpp
index 875ded3..deb3458 100644
--- a/alsfvm/src/numflux/NumericalFluxCPU.cpp
+++ b/alsfvm/src/numflux/NumericalFluxCPU.cpp
@@ -232,8 +232,11 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
 ///
 template<class Flux, class Equation, size_t dimension>
 size_t NumericalFluxCPU<Flux, Equation, dimension>::getNumberOfGhostCells() {
-    return std::max(getStencil<Flux>(Flux()).size() - 1,
-            reconstruction->getNumberOfGhostCells());
+    // The flux uses reconstructed values on (stencilSize / 2 - 1) more cells
+    // outside of the domain than a two point flux does.
+    const size_t stencilSize = getStencil<Flux>(Flux()).size();
+    return std::max(stencilSize - 1,
+            reconstruction->getNumberOfGhostCells() + stencilSize / 2 - 1);
 
 }
 
-- 
2.43.0


From 067553d6c1f17d03ae12588fed5684c66d3feb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 18/56] fix: reject grids with fewer cells than ghost cells

The check compared the size including the ghost cells, and hence never failed.
The ghost cells would be filled from other (unset) ghost cells.
---
 alsfvm/src/boundary/BoundaryCPU.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alsfvm/src/boundary/BoundaryCPU.cpp b/alsfvm/src/boundary/BoundaryCPU.cpp
index 57d95ad..1da8f6f 100644
--- a/alsfvm/src/boundary/BoundaryCPU.cpp
+++ b/alsfvm/src/boundary/BoundaryCPU.cpp
@@ -35,14 +35,16 @@ void applyBoundary(volume::Volume& volume, const size_t dimensions,
     const size_t ny = volume.getTotalNumberOfYCells();
     const size_t nz = volume.getTotalNumberOfZCells();
 
-    if (nx < 2 * numberOfGhostCells || ((dimensions > 1)
-            && ny < 2 * numberOfGhostCells) || ((dimensions > 2)
-            && nz < 2 * numberOfGhostCells) ) {
+    // The sizes include the ghost cells on both sides, and the ghost cells on one
+    // side are filled from the interior cells only.
+    if (nx < 3 * numberOfGhostCells || ((dimensions > 1)
+            && ny < 3 * numberOfGhostCells) || ((dimensions > 2)
+            && nz < 3 * numberOfGhostCells) ) {
         THROW("Too few cells to apply boundary condition. We got (nx, ny, nz)=("
             << nx << ", " << ny << ", " << nz << "), but numberOfGhostCells = " <<
             numberOfGhostCells
             << std::endl << std::endl <<
-            "We require at least double the number of cells in each direction");
+            "We require at least as many cells as ghost cells in each direction");
     }
 
     // We need these two assertions for this to work (else we need fancier indexing)
-- 
2.43.0


From 46258902cdb4054dadf558bbfd23963ecd826fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 19/56] fix: average over eight cells when interpolating in
 three dimensions

---
 alsfvm/include/alsfvm/volume/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/volume/interpolate.hpp b/alsfvm/include/alsfvm/volume/interpolate.hpp
index 6c1547d..8c2c235 100644
--- a/alsfvm/include/alsfvm/volume/interpolate.hpp
+++ b/alsfvm/include/alsfvm/volume/interpolate.hpp
@@ -52,7 +52,7 @@ void interpolate<3>(memory::View<real>& out, memory::View<const real>& in,
         }
     }
 
-    out.at(x, y, z) /= 16;
+    out.at(x, y, z) /= 8;
 }
 
 template<size_t dimension>
-- 
2.43.0


From 09fd661aea69679b85a1756fddc8a38f046ba1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 20/56] fix: ask MPI for the thread support that the halo
 exchange needs

---
 alsuqcli/src/main.cpp   | 4 +++-
 alsvinncli/src/main.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/alsuqcli/src/main.cpp b/alsuqcli/src/main.cpp
index 550e249..793a5a3 100644
--- a/alsuqcli/src/main.cpp
+++ b/alsuqcli/src/main.cpp
@@ -108,7 +108,9 @@ int main(int argc, char** argv) {
 
 
         alsutils::mpi::setCudaDevice();
-        MPI_Init(&argc, &argv);
+        // The halo exchange calls MPI from its own thread
+        int threadSupport;
+        MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &threadSupport);
 
         alsuq::mpi::ConfigurationPtr mpiConfig(new alsuq::mpi::Configuration(
                 MPI_COMM_WORLD));
diff --git a/alsvinncli/src/main.cpp b/alsvinncli/src/main.cpp
index 50938f5..15ac87b 100644
--- a/alsvinncli/src/main.cpp
+++ b/alsvinncli/src/main.cpp
@@ -125,7 +125,10 @@ int main(int argc, char** argv) {
         alsutils::mpi::setCudaDevice();
         int mpiRank;
 
-        MPI_SAFE_CALL(MPI_Init(NULL, NULL));
+        // The halo exchange calls MPI from its own thread
+        int threadSupport;
+        MPI_SAFE_CALL(MPI_Init_thread(NULL, NULL, MPI_THREAD_SERIALIZED,
+                &threadSupport));
 
 
         MPI_SAFE_CALL(MPI_Comm_rank(MPI_COMM_WORLD, &mpiRank));
-- 
2.43.0


From 5efe6043852b329682e698ec19999c3a962f9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 21/56] fix: save at the end time also when the save interval
 is rounded

numberSaved * timeInterval can end up an ulp above or below the end time.
The last save was then lost if something else made the simulation stop at
the end time, or an extra save was made after the end time.
---
 .../include/alsfvm/io/FixedIntervalWriter.hpp |  6 ++++++
 alsfvm/src/io/FixedIntervalWriter.cpp         | 20 ++++++++++++++-----
 .../alsuq/stats/FixedIntervalStatistics.hpp   |  5 +++++
 alsuq/src/stats/FixedIntervalStatistics.cpp   | 16 ++++++++++++---
 4 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp b/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
index 20e6d89..e17f415 100644
--- a/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
+++ b/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
@@ -59,8 +59,14 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    //! The time of the next save. When this is the end time up to rounding
+    //! errors, it is exactly the end time, since the simulation could
+    //! otherwise stop right before (or continue right after) the last save.
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Writer> writer;
     const real timeInterval;
+    const real endTime;
     size_t numberSaved;
     const bool writeInitialTimestep;
 
diff --git a/alsfvm/src/io/FixedIntervalWriter.cpp b/alsfvm/src/io/FixedIntervalWriter.cpp
index c7a8c0c..73b326d 100644
--- a/alsfvm/src/io/FixedIntervalWriter.cpp
+++ b/alsfvm/src/io/FixedIntervalWriter.cpp
@@ -16,13 +16,14 @@
 #include "alsfvm/io/FixedIntervalWriter.hpp"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 
 namespace alsfvm {
 namespace io {
 
 FixedIntervalWriter::FixedIntervalWriter(alsfvm::shared_ptr<Writer>& writer,
-    real timeInterval, real, bool writeInitialTimestep, real startTime)
-    : writer(writer), timeInterval(timeInterval), numberSaved(0),
+    real timeInterval, real endTime, bool writeInitialTimestep, real startTime)
+    : writer(writer), timeInterval(timeInterval), endTime(endTime), numberSaved(0),
       writeInitialTimestep(writeInitialTimestep), startTime(startTime) {
     if (!writeInitialTimestep) {
         numberSaved = 1;
@@ -35,7 +36,7 @@ void FixedIntervalWriter::write(const volume::Volume& conservedVariables,
     const simulator::TimestepInformation& timestepInformation) {
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (currentTime >= numberSaved * timeInterval + startTime) {
+    if (currentTime >= getNextSaveTime()) {
         writer->write(conservedVariables, grid, timestepInformation);
         numberSaved++;
     }
@@ -45,8 +46,7 @@ void FixedIntervalWriter::write(const volume::Volume& conservedVariables,
 real FixedIntervalWriter::adjustTimestep(real dt,
     const simulator::TimestepInformation& timestepInformation) const {
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval + startTime;
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt, getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
@@ -57,5 +57,15 @@ void FixedIntervalWriter::finalize(const grid::Grid& grid,
     writer->finalize(grid, timestepInformation);
 }
 
+real FixedIntervalWriter::getNextSaveTime() const {
+    const real saveTime = numberSaved * timeInterval + startTime;
+
+    if (std::abs(saveTime - endTime) < real(1e-3) * timeInterval) {
+        return endTime;
+    }
+
+    return saveTime;
+}
+
 }
 }
diff --git a/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp b/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
index 325019b..6752dd9 100644
--- a/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
+++ b/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
@@ -68,6 +68,11 @@ protected:
         const alsfvm::simulator::TimestepInformation& timestepInformation) override;
 
 private:
+    //! The time of the next save. When this is the end time up to rounding
+    //! errors, it is exactly the end time, since the simulation could
+    //! otherwise stop right before (or continue right after) the last save.
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Statistics> statistics;
     const real timeInterval;
     const real endTime;
diff --git a/alsuq/src/stats/FixedIntervalStatistics.cpp b/alsuq/src/stats/FixedIntervalStatistics.cpp
index e17eb5e..77139ff 100644
--- a/alsuq/src/stats/FixedIntervalStatistics.cpp
+++ b/alsuq/src/stats/FixedIntervalStatistics.cpp
@@ -15,6 +15,7 @@
 
 #include "alsuq/stats/FixedIntervalStatistics.hpp"
 #include "alsutils/log.hpp"
+#include <cmath>
 
 namespace alsuq {
 namespace stats {
@@ -33,8 +34,7 @@ FixedIntervalStatistics::FixedIntervalStatistics(alsfvm::shared_ptr<Statistics>&
 real FixedIntervalStatistics::adjustTimestep(real dt,
     const alsfvm::simulator::TimestepInformation& timestepInformation) const {
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval;
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt, getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
@@ -74,7 +74,7 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
         numberSaved = size_t(!writeInitialTimestep);
     }
 
-    if (currentTime >= numberSaved * timeInterval) {
+    if (currentTime >= getNextSaveTime()) {
         ALSVINN_LOG(INFO, "Computing statistics, currentTime = " << currentTime << ", "
             << "\n\tnumberSaves = " << numberSaved
             << "\n\ttimeInterval = " << timeInterval
@@ -85,5 +85,15 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
     }
 }
 
+real FixedIntervalStatistics::getNextSaveTime() const {
+    const real saveTime = numberSaved * timeInterval;
+
+    if (std::abs(saveTime - endTime) < real(1e-3) * timeInterval) {
+        return endTime;
+    }
+
+    return saveTime;
+}
+
 }
 }
-- 
2.43.0


From 9023019d1a171c7a142ce5f7a0790dfeca79af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 22/56] fix: do not step back in time for overlapping coarse
 graining saves

---
 alsfvm/src/io/CoarseGrainingIntervalWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp b/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
index f9774a3..a80e261 100644
--- a/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
+++ b/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
@@ -81,6 +81,11 @@ real CoarseGrainingIntervalWriter::adjustTimestep(real dt,
         const real nextSaveTime = numberSaved * timeInterval + (numberOfSkips + 1) *
             dx * (numberSmallSaved);
 
+        // A save that is already due (overlapping saves) must not move us back
+        if (nextSaveTime <= timestepInformation.getCurrentTime()) {
+            return dt;
+        }
+
         return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
     } else {
         return dt;
-- 
2.43.0


From b0d4ec8f19b5024dfa05d4dc0ba61f80c2f7146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 23/56] fix: write the initial data parameters from the Python
 interface

---
 python/alsvinn/alsvinn.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index dc14ce0..689dbdc 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -52,10 +52,13 @@ class Alsvinn(object):
         if parameters != None:
             self.fvmSettings["initialData"]["parameters"] = []
             for parameter_name in parameters.keys():
-                parameter = {"name" : parameter_name, "length" : len(parameters[parameter_name])}
-                parameter["values"] = []
-                for value in parameters[key]:
-                    parameter["value"].append(value)
+                values = numpy.atleast_1d(parameters[parameter_name]).tolist()
+                parameter = {"name" : parameter_name, "length" : len(values)}
+                # A single value is read from <value>, several from <values>
+                if len(values) == 1:
+                    parameter["value"] = values[0]
+                else:
+                    parameter["values"] = values
 
                 self.fvmSettings["initialData"]["parameters"].append(parameter)
 
-- 
2.43.0


From 9589eff308a0255eb45cb3a0cd6f29fdc09fb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 24/56] fix: apply every given grid setting in the Python
 interface

---
 python/alsvinn/alsvinn.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 689dbdc..bfa1103 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -558,12 +558,13 @@ else:
 
     if dimension is not None and upper_corner is not None and lower_corner is not None:
         alsvinn_object.set_cartesian_grid(lower_corner, upper_corner, dimension)
-    elif dimension is not None:
-        alsvinn_object.set_dimension(dimension)
-    elif lower_corner is not None:
-        alsvinn_object.set_lower_corner(lower_corner)
-    elif upper_corner is not None:
-        alsvinn_object.set_upper_corner(upper_corner)
+    else:
+        if dimension is not None:
+            alsvinn_object.set_dimension(dimension)
+        if lower_corner is not None:
+            alsvinn_object.set_lower_corner(lower_corner)
+        if upper_corner is not None:
+            alsvinn_object.set_upper_corner(upper_corner)
     if initial_data_script != None:
         initial_data_file = name + ".py"
         with open(initial_data_file, "w") as f:
-- 
2.43.0


From ed489609d7a7d0e7d01914e380275bcd8dbb4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 25/56] fix: return the cell midpoints from the grid functions
 in the Python interface

---
 python/alsvinn/alsvinn.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index bfa1103..6690ace 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -202,13 +202,15 @@ class Alsvinn(object):
 
             dictionary[key] = formatString.format(value[0], value[1], value[2])
 
+    def __cell_midpoints(self, lower, upper, n):
+        return lower + (numpy.arange(n) + 0.5)*(upper - lower)/n
+
     def get_line_segment(self):
         min_x = self.fvmSettings["grid"]["lowerCorner"][0]
         max_x = self.fvmSettings["grid"]["upperCorner"][0]
         nx = self.fvmSettings["grid"]["dimension"][0]
 
-        x = numpy.linspace(min_x, max_x, nx)
-        x+= 0.5*(x[1]-x[0])
+        x = self.__cell_midpoints(min_x, max_x, nx)
 
         return x
 
@@ -221,8 +223,9 @@ class Alsvinn(object):
         max_y = self.fvmSettings["grid"]["upperCorner"][1]
         ny = self.fvmSettings["grid"]["dimension"][1]
 
-        x, y = numpy.mgrid[min_x:max_x:nx*1j, min_y:max_y:ny*1j]
-
+        # The first index of the data is in the y direction
+        x, y = numpy.meshgrid(self.__cell_midpoints(min_x, max_x, nx),
+                              self.__cell_midpoints(min_y, max_y, ny))
 
         return x, y
     def get_dimension(self):
-- 
2.43.0


From 5fe427b1eea8d1df6559931b4878e44506487dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 26/56] fix: use the right keys for uq settings in the Python
 interface

---
 python/alsvinn/alsvinn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 6690ace..10e7e10 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -404,7 +404,7 @@ class Alsvinn(object):
         if 'stats' not in self.uqSettings.keys():
             self.uqSettings['stats']  = []
         elif type(self.uqSettings['stats']) is not list:
-            self.uqSettings['stats'] = [self.uqSettings['statistics']['stat']]
+            self.uqSettings['stats'] = [self.uqSettings['stats']['stat']]
         self.uqSettings['stats'].append({'name' : statisticsName,
                                                 'numberOfSaves' : numberOfSaves,
                                                 "writeInitialTimestep" : int(writeInitialTimestep),
@@ -421,7 +421,12 @@ class Alsvinn(object):
         self.fvmSettings['functionals'].append(functionalOptions)
 
     def set_distribution(self, distribution):
-        self.uqSettings['parameter']['parameter']['type']=distribution
+        parameters = self.uqSettings['parameters']
+        # Several parameters are stored in a list
+        if type(parameters) is not list:
+            parameters = [parameters['parameter']]
+        for parameter in parameters:
+            parameter['type'] = distribution
 
     def set_diffusion(self, operator, reconstruction):
         self.fvmSettings['diffusion'] = {'name' : operator,
-- 
2.43.0


From 10f497d2f8abb29d197142ade546fe40640f43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 27/56] fix: run the given configuration from the Python
 interface

---
 python/alsvinn/alsvinn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 10e7e10..0b6b18f 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -33,6 +33,7 @@ class Alsvinn(object):
             self.read_xml(xml_file)
         
         elif configuration != None:
+            self.settings["fvm"] = configuration
             self.fvmSettings = configuration
         self.alsvinncli = alsvinncli
         self.prepend_alsvinncli = prepend_alsvinncli
-- 
2.43.0


From 7c895d3261fb283c69c87674a5a87a461f7a3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 28/56] fix: remove the writer node from the Python interface

---
 python/alsvinn/alsvinn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 0b6b18f..7af1081 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -65,7 +65,7 @@ class Alsvinn(object):
 
 
     def remove_fvm_writer(self):
-        self.fvmSettings["writer"] = None
+        self.fvmSettings.pop("writer", None)
 
     def set_equation_parameters(self, parameters):
         self.fvmSettings["equationParameters"] = parameters
-- 
2.43.0


From b1b4aec69b5cbae740008db49121466325232417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 29/56] fix: use the left flux in HLL when the left wave stands
 still

---
 alsfvm/include/alsfvm/numflux/euler/HLL.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
index d196970..2d6f671 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
@@ -60,9 +60,7 @@ public:
 
         computeHLLSpeeds<direction>(eq, left, right, speedLeft, speedRight);
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             eq.template computePointFlux<direction>(left, F);
         } else if (speedRight < 0) {
             eq.template computePointFlux<direction>(right, F);
-- 
2.43.0


From 57ab989aacddb3c1283f125ab7f13846436411bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 30/56] fix: choose the ENO stencil from the differences of the
 stencil chosen so far

---
 alsfvm/src/reconstruction/ENOCPU.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/alsfvm/src/reconstruction/ENOCPU.cpp b/alsfvm/src/reconstruction/ENOCPU.cpp
index 55e1b51..2522fac 100644
--- a/alsfvm/src/reconstruction/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/ENOCPU.cpp
@@ -131,9 +131,9 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
 
 
                     const size_t indexRight = z * nx * ny + y * nx + x;
-                    const size_t indexLeft = (z - directionVector.z) * nx * ny
-                        + (y - directionVector.y) * nx
-                        + (x - directionVector.x);
+                    const size_t stride = directionVector.z * nx * ny
+                        + directionVector.y * nx
+                        + directionVector.x;
 
                     // First we determine the shift
                     // We do this by looping through the levels of the divided
@@ -141,8 +141,12 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
                     int shift = 0;
 
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        // The candidates extend the stencil chosen so far
+                        const size_t indexStencil = indexRight - shift * stride;
+                        real dividedDifferenceRight =
+                            dividedDifferencesPointers[level][indexStencil];
+                        real dividedDifferenceLeft =
+                            dividedDifferencesPointers[level][indexStencil - stride];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -221,11 +225,11 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>& input,
     assert(ny > int(2 * direction.y * level));
     assert(nz > int(2 * direction.z * level));
 
-    const int startX =        (direction.x == 0) * order + direction.x * level +
+    const int startX =        (direction.x == 0) * order + direction.x +
         start.x;
-    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y * level +
+    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y +
         start.y;
-    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z * level +
+    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z +
         start.z;
 
     const int endX = nx -        ((direction.x == 0) * (order - 1) + direction.x *
-- 
2.43.0


From f2d34e1fc4e58fe9da6ac3ab8c8c12e41f8d0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 31/56] fix: reconstruct the entropy variables along the given
 direction and up to the last interface

---
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp |  2 +-
 alsfvm/src/reconstruction/tecno/ENOCPU.cpp | 29 ++++++++++++----------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index b9a4ee6..b8e9891 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -62,7 +62,7 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         equation.setViewAt(entropyRightView, leftIndex,
             RT * equation.computeEntropyVariables(conservedValuesLeft));
 
-    }, make_direction_vector(direction), make_direction_vector(direction));
+    }, make_direction_vector(direction));
 
 
 
diff --git a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
index 0cf6b86..0dfa848 100644
--- a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
@@ -117,9 +117,8 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
 
 
                     const size_t indexRight =  leftView.index(x, y, z);
-                    const size_t indexLeft = leftView.index((x - directionVector.x),
-                            (y - directionVector.y),
-                            (z - directionVector.z));
+                    const size_t stride = leftView.index(directionVector.x,
+                            directionVector.y, directionVector.z);
 
                     // First we determine the shift
                     // We do this by looping through the levels of the divided
@@ -127,8 +126,12 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
                     int shift = 0;
 
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        // The candidates extend the stencil chosen so far
+                        const size_t indexStencil = indexRight - shift * stride;
+                        real dividedDifferenceRight =
+                            dividedDifferencesPointers[level][indexStencil];
+                        real dividedDifferenceLeft =
+                            dividedDifferencesPointers[level][indexStencil - stride];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -149,9 +152,9 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
 
                     for (int l = 0; l < order - 1; ++l) {
                         wCur[order + l]   = wCur[order + l - 1] +
-                            dividedDifferencesPointers[0][indexRight + l];
+                            dividedDifferencesPointers[0][indexRight + l * stride];
                         wCur[order - l - 2] = wCur[order - l - 1] -
-                            dividedDifferencesPointers[0][indexRight - l - 1];
+                            dividedDifferencesPointers[0][indexRight - (l + 1) * stride];
                     }
 
                     // Calculate wlR, wrR
@@ -211,13 +214,13 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>&
     assert(ny > 2 * direction.y * level);
     assert(nz > 2 * direction.z * level);
 
-    const size_t startX = direction.x * level;
-    const size_t startY = direction.y * level;
-    const size_t startZ = direction.z * level;
+    const size_t startX = direction.x;
+    const size_t startY = direction.y;
+    const size_t startZ = direction.z;
 
-    const size_t endX = nx - direction.x * level;
-    const size_t endY = ny - direction.y * level;
-    const size_t endZ = nz - direction.z * level;
+    const size_t endX = nx - direction.x * (level - 1);
+    const size_t endY = ny - direction.y * (level - 1);
+    const size_t endZ = nz - direction.z * (level - 1);
 
     auto leftView = leftInput.getView();
     auto rightView = rightInput.getView();
-- 
2.43.0


From a6712a454c42a0cbac77c5bd6f6795978d28a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 32/56] fix: keep the last component in the six component
 vector

---
 alsutils/include/alsutils/vec6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/vec6.hpp b/alsutils/include/alsutils/vec6.hpp
index b85a3e2..9a79001 100644
--- a/alsutils/include/alsutils/vec6.hpp
+++ b/alsutils/include/alsutils/vec6.hpp
@@ -34,7 +34,7 @@ struct vec6 {
 
     }
     __device__ __host__ vec6(T x, T y, T z, T v, T w, T u)
-        : x(x), y(y), z(z), v(v), w(w), u(0) {
+        : x(x), y(y), z(z), v(v), w(w), u(u) {
         // Empty
     }
 
-- 
2.43.0


From 6b0dfa770c5ff7e6b630dfe8e817835f2a8db938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 33/56] fix: use the average flux for almost equal states in
 the scalar entropy conservative flux

---
 .../alsfvm/numflux/ScalarEntropyConservativeFlux.hpp     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp b/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
index e5e2519..3f5486a 100644
--- a/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
+++ b/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
@@ -43,9 +43,14 @@ public:
         auto leftEntropyVariable = eq.computeEntropyVariables(left);
         auto rightEntropyVariable = eq.computeEntropyVariables(right);
 
-        if (left.u ==
-            right.u) {// || (leftEntropyVariable - rightEntropyVariable).norm() < 1e-6) {
+        // For almost equal states the quotient below is dominated by rounding
+        // errors, there we use the average (which is second order accurate in
+        // the jump).
+        if (fabs(left.u - right.u) <= 1e-5 * fmax(fabs(left.u), fabs(right.u))) {
+            typename Equation::ConservedVariables rightFlux;
             eq.template computePointFlux<direction>(left, F);
+            eq.template computePointFlux<direction>(right, rightFlux);
+            F.u = 0.5 * (F.u + rightFlux.u);
         } else {
             auto leftEntropyPotential = eq.computeEntropyPotential(left);
             auto rightEntropyPotential = eq.computeEntropyPotential(right);
-- 
2.43.0


From a5c1ad1640423d601d3375be73a9f047127c5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 34/56] fix: give the MPI parameters to the python and dll
 writers

---
 alsfvm/src/io/MpiWriterFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/io/MpiWriterFactory.cpp b/alsfvm/src/io/MpiWriterFactory.cpp
index b45cfc2..c7267f9 100644
--- a/alsfvm/src/io/MpiWriterFactory.cpp
+++ b/alsfvm/src/io/MpiWriterFactory.cpp
@@ -41,9 +41,9 @@ alsfvm::shared_ptr<Writer> MpiWriterFactory::createWriter(
                 configuration->getCommunicator(),
                 configuration->getInfo()));
     } else if (name == "python") {
-        writer.reset(new PythonScript(baseFilename, parameters, configuration));
+        writer.reset(new PythonScript(baseFilename, parameterCopy, configuration));
     } else if (name == "dll") {
-        writer.reset(new DLLWriter(baseFilename, parameters, configuration));
+        writer.reset(new DLLWriter(baseFilename, parameterCopy, configuration));
     } else {
         THROW("Unknown writer " << name << std::endl << "Does not have MPI support.");
     }
-- 
2.43.0


From 2d9f511d1f4d417cdb49353a731412bc69d5c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 35/56] fix: call the delete function of a dll writer

---
 alsfvm/src/io/DLLWriter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/alsfvm/src/io/DLLWriter.cpp b/alsfvm/src/io/DLLWriter.cpp
index 25aed9a..62bb6b0 100644
--- a/alsfvm/src/io/DLLWriter.cpp
+++ b/alsfvm/src/io/DLLWriter.cpp
@@ -53,6 +53,15 @@ DLLWriter::DLLWriter(const std::string& basename,
             parametersStruct
         );
 
+    if (parameters.contains("delete_function")) {
+        auto deleteFunctionName = parameters.getString("delete_function");
+
+        if (boost::algorithm::to_lower_copy(deleteFunctionName) != "none") {
+            deleteFunction = boost::dll::import<void(DLLData)>(filename,
+                    deleteFunctionName);
+        }
+    }
+
     auto newTimestepFunctionName =
         parameters.getString("new_timestep_function");
 
-- 
2.43.0


From 66416921bc74f213c6a4a16266a832557e0a26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 36/56] fix: integrate functionals only from the start of the
 time window

---
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index d7483ab..06ee859 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -14,6 +14,8 @@
  */
 
 #include "alsfvm/functional/TimeIntegrationFunctional.hpp"
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 
 namespace alsfvm {
@@ -38,7 +40,8 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
     }
 
     const double currentTime = timestepInformation.getCurrentTime();
-    const double dt = currentTime - lastTime;
+    // Nothing from before the start of the window belongs to the integral
+    const double dt = currentTime - std::max(lastTime, time - timeRadius);
 
     if (std::abs(currentTime - time) <= timeRadius) {
         (*functional)(*conservedVolume,  conservedVariables,
-- 
2.43.0


From 3c361d9cca1f37486a5bbb4ea2a8a7313ed28559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 37/56] fix: restart the time integration of functional
 statistics with each sample

---
 .../src/stats/TimeIntegratedFunctionalStatistics.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
index 47ed8cb..f3e6454 100644
--- a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
+++ b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
@@ -16,6 +16,8 @@
 #include "alsuq/stats/TimeIntegratedFunctionalStatistics.hpp"
 #include "alsfvm/functional/FunctionalFactory.hpp"
 #include "alsuq/stats/stats_util.hpp"
+#include <algorithm>
+#include <cmath>
 
 namespace alsuq {
 namespace stats {
@@ -68,12 +70,16 @@ void TimeIntegratedFunctionalStatistics::computeStatistics(
             conservedVariables,
             gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
 
+    // Every sample starts from the beginning again
+    if (currentTime <= lastTime) {
+        lastTime = 0;
+    }
+
     if (std::abs(currentTime - time) <= timeRadius) {
         // Now we should write
-        double dt = currentTime - lastTime;
+        // Nothing from before the start of the window belongs to the integral
+        const double dt = currentTime - std::max(lastTime, time - timeRadius);
 
-        // If dt <= 0, we get no contributioni (usually it is because we
-        // are on a new sample)
         if (dt > 0) {
             functional->operator ()(*functionalTime.getVolumes().getConservedVolume(),
                 conservedVariables,
-- 
2.43.0


From 97c5e1a71af4ccbdcffc841a2630ab295926af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 38/56] fix: give each process its own part of the output of
 reduced statistics

---
 alsuq/src/stats/StatisticsHelper.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/stats/StatisticsHelper.cpp b/alsuq/src/stats/StatisticsHelper.cpp
index 3a664a8..144e97c 100644
--- a/alsuq/src/stats/StatisticsHelper.cpp
+++ b/alsuq/src/stats/StatisticsHelper.cpp
@@ -88,8 +88,18 @@ void StatisticsHelper::writeStatistics(const alsfvm::grid::Grid& grid) {
                 auto& timestepInformation = statistics.second.getTimestepInformation();
 
                 if (ownGrid) {
+                    // Every process of a sample that is split in space has its
+                    // own part of the output
+                    const ivec3 size = ownGrid->getDimensions();
+                    const ivec3 numberOfNodes = grid.getGlobalSize() /
+                        grid.getDimensions();
+                    const ivec3 nodePosition = grid.getGlobalPosition() /
+                        grid.getDimensions();
+                    const alsfvm::grid::Grid partOfOwnGrid(ownGrid->getOrigin(),
+                        ownGrid->getTop(), size, ownGrid->getBoundaryConditions(),
+                        nodePosition * size, numberOfNodes * size);
                     writer->write(*volumes.getConservedVolume(),
-                        *ownGrid, timestepInformation);
+                        partOfOwnGrid, timestepInformation);
                 } else {
                     writer->write(*volumes.getConservedVolume(),
                         grid, timestepInformation);
-- 
2.43.0


From 9785feb6b5f73cb790eca969754460089d29af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 39/56] fix: collect statistics of all samples at the same save
 time

---
 alsuq/src/stats/FixedIntervalStatistics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/stats/FixedIntervalStatistics.cpp b/alsuq/src/stats/FixedIntervalStatistics.cpp
index 77139ff..e9e50bd 100644
--- a/alsuq/src/stats/FixedIntervalStatistics.cpp
+++ b/alsuq/src/stats/FixedIntervalStatistics.cpp
@@ -79,8 +79,11 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
             << "\n\tnumberSaves = " << numberSaved
             << "\n\ttimeInterval = " << timeInterval
             << "\n\tendTime = " << endTime);
+        // The samples reach the save time only up to rounding, but the statistics
+        // need the same time for every sample
         statistics->computeStatistics(conservedVariables, grid,
-            timestepInformation);
+            alsfvm::simulator::TimestepInformation(getNextSaveTime(),
+                timestepInformation.getNumberOfStepsPerformed()));
         numberSaved++;
     }
 }
-- 
2.43.0


From ebbee2eced02d2f60a5fb8d32b6a8ef13970b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 40/56] fix: use the configured bounds of uniformly distributed
 parameters

---
 alsuq/src/config/Setup.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index ed42282..33e7f75 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -184,15 +184,17 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
         auto type = parameterNode.second.get<std::string>("type");
 
         distribution::Parameters parametersToDistribution(parameterNode.second);
-        parametersToDistribution.addDoubleParameter("lower", 0);
-        parametersToDistribution.addDoubleParameter("upper", 1);
-
-        parametersToDistribution.addDoubleParameter("a", 0);
-        parametersToDistribution.addDoubleParameter("b", 1);
-
-
-        parametersToDistribution.addDoubleParameter("mean", 0);
-        parametersToDistribution.addDoubleParameter("sd", 1);
+        // Only for the settings that are not given
+        const std::map<std::string, double> defaults = {
+            {"lower", 0}, {"upper", 1}, {"a", 0}, {"b", 1}, {"mean", 0}, {"sd", 1}
+        };
+
+        for (const auto& setting : defaults) {
+            if (!parametersToDistribution.contains(setting.first)) {
+                parametersToDistribution.addDoubleParameter(setting.first,
+                    setting.second);
+            }
+        }
 
         auto distribution = distributionFactory.createDistribution(type,
                 length,
-- 
2.43.0


From e39575f0df722eb927a8e3f350838031bbb004e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 41/56] fix: average the solution over the whole requested time
 window

The time window of a writer was dropped without numberOfSnapshots, and with it
the first snapshot was weighted from the start of the run, the last one left
out and a window without a step in it dereferenced a null pointer.
---
 .../alsfvm/io/TimeIntegratedWriter.hpp        |  3 ++
 alsfvm/src/config/SimulatorSetup.cpp          |  2 +
 alsfvm/src/io/TimeIntegratedWriter.cpp        | 42 ++++++++++---------
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp b/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp
index 2e7fa8b..8cef9e5 100644
--- a/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp
+++ b/alsfvm/include/alsfvm/io/TimeIntegratedWriter.hpp
@@ -55,6 +55,9 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    //! Writes the average over the time window
+    void writeIntegrated(const grid::Grid& grid);
+
     alsfvm::shared_ptr<Writer> writer;
     const real time;
     const real timeRadius;
diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 80b51bf..f5b4131 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -410,6 +410,8 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
                             timeInterval, time + timeRadius, false,
                             std::max(time - timeRadius, real(0.0))));
             }
+
+            return timeIntegratedWriter;
         }
 
         return baseWriter;
diff --git a/alsfvm/src/io/TimeIntegratedWriter.cpp b/alsfvm/src/io/TimeIntegratedWriter.cpp
index fab5644..93310dc 100644
--- a/alsfvm/src/io/TimeIntegratedWriter.cpp
+++ b/alsfvm/src/io/TimeIntegratedWriter.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/io/TimeIntegratedWriter.hpp"
+#include <algorithm>
 
 namespace alsfvm {
 namespace io {
@@ -31,35 +32,25 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (std::abs(currentTime - time) < timeRadius) {
-
-        if (!integratedConservedVariables) {
-            integratedConservedVariables = conservedVariables.makeInstance();
-            integratedConservedVariables->makeZero();
-
-        }
-
-        const real dt = currentTime - lastTime;
-
-
+    if (!integratedConservedVariables) {
+        integratedConservedVariables = conservedVariables.makeInstance();
+        integratedConservedVariables->makeZero();
+    }
 
+    // The part of the time since the last call that belongs to the window
+    const real dt = std::min(currentTime, time + timeRadius)
+        - std::max(lastTime, time - timeRadius);
 
+    if (dt > 0) {
         integratedConservedVariables->addLinearCombination(1,
             dt, conservedVariables,
             0, conservedVariables,
             0, conservedVariables,
             0, conservedVariables);
-
-
     }
 
     if (!written && currentTime >= time + timeRadius) {
-
-        simulator::TimestepInformation newTime(time, 0);
-        *integratedConservedVariables *= 0.5 / timeRadius;
-        writer->write(*integratedConservedVariables, grid,
-            newTime);
-        written = true;
+        writeIntegrated(grid);
     }
 
     lastTime = currentTime;
@@ -67,8 +58,21 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
 void TimeIntegratedWriter::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
+    // The end time can be equal to the end of the window only up to rounding
+    if (!written && integratedConservedVariables) {
+        writeIntegrated(grid);
+    }
+
     writer->finalize(grid, timestepInformation);
 }
 
+void TimeIntegratedWriter::writeIntegrated(const grid::Grid& grid) {
+    simulator::TimestepInformation newTime(time, 0);
+    *integratedConservedVariables *= 0.5 / timeRadius;
+    writer->write(*integratedConservedVariables, grid,
+        newTime);
+    written = true;
+}
+
 }
 }
-- 
2.43.0


From 72abbabda390cae154cdc15f724ebaa0b521f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 42/56] fix: take the last snapshot of a time window that ends
 with the run

The end of the window can exceed the end time by rounding only.
---
 alsfvm/src/config/SimulatorSetup.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index f5b4131..de0f888 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -407,7 +407,8 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
 
                 return alsfvm::shared_ptr<io::Writer>(new io::FixedIntervalWriter(
                             timeIntegratedWriter,
-                            timeInterval, time + timeRadius, false,
+                            timeInterval,
+                            std::min(time + timeRadius, readEndTime(configuration)), false,
                             std::max(time - timeRadius, real(0.0))));
             }
 
@@ -606,7 +607,8 @@ std::vector<io::WriterPointer> SimulatorSetup::createFunctionals(
                     timeIntegrationFunctional = alsfvm::shared_ptr<io::Writer>
                         (new io::FixedIntervalWriter(
                                 timeIntegrationFunctional,
-                                timeInterval, time + timeRadius, false,
+                                timeInterval,
+                                std::min(time + timeRadius, readEndTime(configuration)), false,
                                 std::max(time - timeRadius, real(0.0))));
                 }
 
-- 
2.43.0


From 00c87786a92ab53b5180871c8474f7e69d8de814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 43/56] fix: take the coarse graining save at the end time

The time of the last save can exceed the end time by rounding only, and another
output request may end the run exactly at the end time.
---
 .../io/CoarseGrainingIntervalWriter.hpp       |  3 +++
 .../src/io/CoarseGrainingIntervalWriter.cpp   | 22 ++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp b/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp
index dfbede4..922095b 100644
--- a/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp
+++ b/alsfvm/include/alsfvm/io/CoarseGrainingIntervalWriter.hpp
@@ -66,8 +66,11 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Writer> writer;
     const real timeInterval;
+    const real endTime;
     const int numberOfCoarseSaves;
     const int numberOfSkips;
 
diff --git a/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp b/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
index a80e261..7ad3352 100644
--- a/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
+++ b/alsfvm/src/io/CoarseGrainingIntervalWriter.cpp
@@ -16,6 +16,7 @@
 #include "alsfvm/io/CoarseGrainingIntervalWriter.hpp"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 #include "alsutils/log.hpp"
 
 namespace alsfvm {
@@ -25,8 +26,9 @@ CoarseGrainingIntervalWriter::CoarseGrainingIntervalWriter(
     alsfvm::shared_ptr<Writer>& writer,
     real timeInterval,
     int numberOfCoarseSaves,
-    real, int numberOfSkips)
+    real endTime, int numberOfSkips)
     : writer(writer), timeInterval(timeInterval),
+      endTime(endTime),
       numberOfCoarseSaves(numberOfCoarseSaves),
       numberOfSkips(numberOfSkips),
       numberSaved(0) {
@@ -42,8 +44,7 @@ void CoarseGrainingIntervalWriter::write(const volume::Volume&
     dx = grid.getCellLengths().x;
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (currentTime >= numberSaved * timeInterval + (numberOfSkips + 1)*dx *
-        (numberSmallSaved)) {
+    if (currentTime >= getNextSaveTime()) {
         writer->write(conservedVariables, grid, timestepInformation);
         ALSVINN_LOG(INFO, "Writing at " << timestepInformation.getCurrentTime()
             << "("
@@ -78,8 +79,7 @@ real CoarseGrainingIntervalWriter::adjustTimestep(real dt,
     const simulator::TimestepInformation& timestepInformation) const {
 
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval + (numberOfSkips + 1) *
-            dx * (numberSmallSaved);
+        const real nextSaveTime = getNextSaveTime();
 
         // A save that is already due (overlapping saves) must not move us back
         if (nextSaveTime <= timestepInformation.getCurrentTime()) {
@@ -97,5 +97,17 @@ void CoarseGrainingIntervalWriter::finalize(const grid::Grid& grid,
     writer->finalize(grid, timestepInformation);
 }
 
+real CoarseGrainingIntervalWriter::getNextSaveTime() const {
+    const real saveTime = numberSaved * timeInterval + (numberOfSkips + 1) *
+        dx * (numberSmallSaved);
+
+    // The last save can miss the end time by rounding only
+    if (std::abs(saveTime - endTime) < real(1e-9) * timeInterval) {
+        return endTime;
+    }
+
+    return saveTime;
+}
+
 }
 }
-- 
2.43.0


From 63f4e07e73e5e3c630fb51ecccde513b6155077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 44/56] fix: let initial data see parameters named like a math
 function

The names of math and numpy were imported after the parameters had been set, so
that for example gamma was the gamma function and not the equation parameter.
---
 alsfvm/src/init/PythonInitialData.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alsfvm/src/init/PythonInitialData.cpp b/alsfvm/src/init/PythonInitialData.cpp
index b43f607..a302f1d 100644
--- a/alsfvm/src/init/PythonInitialData.cpp
+++ b/alsfvm/src/init/PythonInitialData.cpp
@@ -96,6 +96,12 @@ void PythonInitialData::setInitialData(volume::Volume& conservedVolume,
         addAddons(mainModule);
         boost::python::object mainNamespace = mainModule.attr("__dict__");
 
+        // This comes before the parameters, whose names can be those of functions
+        // of these modules (eg. gamma)
+        boost::python::exec(
+            "from math import *\ntry:\n    from numpy import *\nexcept:\n    pass\n",
+            mainNamespace);
+
         // Now we declare the wrappers around the function.
         std::stringstream functionStringStream;
 
@@ -108,10 +114,6 @@ void PythonInitialData::setInitialData(volume::Volume& conservedVolume,
             snippet = false;
         }
 
-        functionStringStream << "from math import *" << std::endl;
-        functionStringStream << "try:\n    from numpy import *\nexcept:\n    pass" <<
-            std::endl;
-
         if (snippet) {
             functionStringStream << "def initial_data(x, y, z, i, j, k, output):\n";
 
-- 
2.43.0


From 7a07582d03bf8254a871f032dd69692cc1e3dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 45/56] fix: do not finalize Python after the modules it loaded
 are gone

The interpreter was finalized when the program exits, after the static objects of
the imported extension modules were destroyed. Runs whose scripts import
scipy.stats crashed at the end, with a failure as exit status.
---
 alsfvm/src/python/PythonInterpreter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/python/PythonInterpreter.cpp b/alsfvm/src/python/PythonInterpreter.cpp
index c82057b..23b165c 100644
--- a/alsfvm/src/python/PythonInterpreter.cpp
+++ b/alsfvm/src/python/PythonInterpreter.cpp
@@ -9,7 +9,14 @@ PythonInterpreter& PythonInterpreter::getInstance() {
 
 PythonInterpreter::~PythonInterpreter() {
 
-    Py_Finalize();
+    // We can not call Py_Finalize: This runs when the program exits, after the
+    // static objects of the extension modules the scripts imported (eg. scipy) are
+    // destroyed. Boost.Python does not support it either. The scripts still
+    // expect the rest of what happens when the interpreter ends.
+    PyRun_SimpleString("import atexit, sys\n"
+        "atexit._run_exitfuncs()\n"
+        "sys.stdout.flush()\n"
+        "sys.stderr.flush()\n");
 }
 
 PythonInterpreter::PythonInterpreter() {
-- 
2.43.0


From 375e51c5f96a2695c8cc7dec8a0c903d242c356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 46/56] fix: reject vectors with fewer than three numbers

The missing numbers were read beyond the end of the list.
---
 alsfvm/src/config/SimulatorSetup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index de0f888..0da914d 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -74,6 +74,10 @@ vec3<T> parseVector(const std::string& vectorAsString) {
     std::vector<std::string> splitString;
     boost::split(splitString, vectorAsString, boost::is_any_of("\t "));
 
+    if (splitString.size() < 3) {
+        THROW("Expected three numbers, got \"" << vectorAsString << "\"");
+    }
+
     T a = boost::lexical_cast<T>(splitString[0]);
     T b = boost::lexical_cast<T>(splitString[1]);
     T c = boost::lexical_cast<T>(splitString[2]);
-- 
2.43.0


From 0b6e4c4b3b784b8c5489b2b1644dbc24aaf4425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 47/56] fix: accept comments in the configuration

A comment was taken for an element: for an unknown option in the fvm node, for a
parameter or statistic without a name in the uq node and for an attribute with a
name netcdf does not accept elsewhere.
---
 alsfvm/src/config/XMLParser.cpp |  3 ++-
 alsuq/src/config/Setup.cpp      | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/alsfvm/src/config/XMLParser.cpp b/alsfvm/src/config/XMLParser.cpp
index 63dca20..f3dafb7 100644
--- a/alsfvm/src/config/XMLParser.cpp
+++ b/alsfvm/src/config/XMLParser.cpp
@@ -20,7 +20,8 @@ namespace alsfvm {
 namespace config {
 
 void XMLParser::parseFile(std::istream& stream, ptree& configuration) {
-    boost::property_tree::read_xml(stream, configuration);
+    boost::property_tree::read_xml(stream, configuration,
+        boost::property_tree::xml_parser::no_comments);
 }
 
 }
diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 33e7f75..492714a 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -59,7 +59,8 @@ std::shared_ptr<run::Runner> Setup::makeRunner(const std::string& inputFilename,
     std::stringstream stream(configurationFileContent);
 
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
     auto sampleGenerator = makeSampleGenerator(configuration);
     auto numberOfSamples = readNumberOfSamples(configuration);
@@ -113,7 +114,8 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
     auto sampleGenerator = makeSampleGenerator(configuration);
 
@@ -126,7 +128,8 @@ size_t Setup::readNumberOfSamples(const std::string& inputFilename) {
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
 
     return readNumberOfSamples(configuration);
@@ -137,7 +140,8 @@ size_t Setup::readSampleStart(const std::string& inputFilename) {
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
 
     return readSampleStart(configuration);
-- 
2.43.0


From c5341210dd15c8fb863aaca18c15518ae87246d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 48/56] fix: report errors in the finalize method of a python
 writer

The exception was not caught, and the program was aborted without telling what
went wrong in the script.
---
 alsfvm/src/io/PythonScript.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/io/PythonScript.cpp b/alsfvm/src/io/PythonScript.cpp
index 2bbbffb..4c755ec 100644
--- a/alsfvm/src/io/PythonScript.cpp
+++ b/alsfvm/src/io/PythonScript.cpp
@@ -100,7 +100,11 @@ void PythonScript::write(const volume::Volume& conservedVariables,
 void PythonScript::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
 
-    classInstance.attr("finalize")();
+    try {
+        classInstance.attr("finalize")();
+    } catch (boost::python::error_already_set&) {
+        HANDLE_PYTHON_EXCEPTION
+    }
 }
 
 void PythonScript::makeDatasets(const volume::Volume& conservedVariables) {
-- 
2.43.0


From c737e7f1fb3ea6e4d1db7a62a7d4d6dc60bac466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 49/56] fix: write well-formed XML reports

The names of some of the values (C++11, paths of the loaded files with eg. a space
in them) are not allowed as names of XML elements, so no XML parser would read the
report.
---
 alsutils/src/write_run_report.cpp | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/alsutils/src/write_run_report.cpp b/alsutils/src/write_run_report.cpp
index 3cf9095..0446ba1 100644
--- a/alsutils/src/write_run_report.cpp
+++ b/alsutils/src/write_run_report.cpp
@@ -39,6 +39,42 @@
 #endif
 
 namespace alsutils {
+
+namespace {
+// Some of the keys (eg. "C++11" or the paths of the loaded files) have characters
+// that are not allowed in the name of an XML element.
+std::string makeXMLName(const std::string& key) {
+    std::string name;
+
+    for (const char character : key) {
+        const bool isAllowed = (character >= 'a' && character <= 'z')
+            || (character >= 'A' && character <= 'Z')
+            || (character >= '0' && character <= '9')
+            || character == '_' || character == '-' || character == '.';
+        name.push_back(isAllowed ? character : '_');
+    }
+
+    if (name.empty() || (name[0] >= '0' && name[0] <= '9') || name[0] == '-'
+        || name[0] == '.') {
+        name.insert(0, "_");
+    }
+
+    return name;
+}
+
+boost::property_tree::ptree makeXMLTree(const boost::property_tree::ptree&
+    propertyTree) {
+    boost::property_tree::ptree tree(propertyTree.data());
+
+    for (const auto& node : propertyTree) {
+        tree.push_back(std::make_pair(makeXMLName(node.first),
+                makeXMLTree(node.second)));
+    }
+
+    return tree;
+}
+}
+
 void writeRunReport(const std::string& executable,
     const std::string& name,
     const int cpuDurationMs,
@@ -79,7 +115,7 @@ void writeRunReport(const std::string& executable,
     boost::property_tree::write_json(executable + "_" + name + "_report.json",
         propertyTree);
     boost::property_tree::write_xml(executable + "_" + name + "_report.xml",
-        propertyTree);
+        makeXMLTree(propertyTree));
 
 
 }
-- 
2.43.0


From 0166a4c5dd25e7e799f627785b19378952fe22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 50/56] fix: shorten attribute names that are too long for
 NetCDF

The files a run has read are stored in attributes named after their full path, so
a run in a folder with a long path failed on its first output.
---
 alsfvm/include/alsfvm/io/netcdf_utils.hpp        | 16 ++++++++++++++++
 alsfvm/src/io/netcdf_write_attributes.cpp        |  3 ++-
 .../src/io/parallel_netcdf_write_attributes.cpp  |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/netcdf_utils.hpp b/alsfvm/include/alsfvm/io/netcdf_utils.hpp
index 2584c2a..18f1fda 100644
--- a/alsfvm/include/alsfvm/io/netcdf_utils.hpp
+++ b/alsfvm/include/alsfvm/io/netcdf_utils.hpp
@@ -17,6 +17,7 @@
 #include "alsfvm/types.hpp"
 #include "alsutils/error/Exception.hpp"
 #include <netcdf.h>
+#include <string>
 
 #define NETCDF_SAFE_CALL(x) {\
     auto error = x; \
@@ -43,6 +44,21 @@ struct NetCDFType<float> {
     using type = float;
 };
 
+//! Names in a NetCDF file can not be longer than NC_MAX_NAME. Longer names (typically
+//! of attributes named after a long path) keep their start and their end.
+inline std::string makeNetcdfName(const std::string& name) {
+    if (name.size() <= NC_MAX_NAME) {
+        return name;
+    }
+
+    const size_t startLength = NC_MAX_NAME / 4;
+    const std::string middle = "...";
+    const size_t endLength = NC_MAX_NAME - startLength - middle.size();
+
+    return name.substr(0, startLength) + middle
+        + name.substr(name.size() - endLength);
+}
+
 //! Gets the type corresponding to the alsfvm::real type
 inline netcdf_raw_ptr getNetcdfRealType() {
     if (std::is_same<NetCDFType<real>::type, double>::value) {
diff --git a/alsfvm/src/io/netcdf_write_attributes.cpp b/alsfvm/src/io/netcdf_write_attributes.cpp
index 435de7a..8d1fab9 100644
--- a/alsfvm/src/io/netcdf_write_attributes.cpp
+++ b/alsfvm/src/io/netcdf_write_attributes.cpp
@@ -27,7 +27,8 @@ void netcdfWriteAttributes(netcdf_raw_ptr varid,
 
     if (propertyTree.empty()) {
         std::string data = propertyTree.data();
-        NETCDF_SAFE_CALL(nc_put_att_text(varid, NC_GLOBAL, basename.c_str(),
+        NETCDF_SAFE_CALL(nc_put_att_text(varid, NC_GLOBAL,
+                makeNetcdfName(basename).c_str(),
                 data.size(), data.c_str()));
     } else {
         for (auto& node : propertyTree) {
diff --git a/alsfvm/src/io/parallel_netcdf_write_attributes.cpp b/alsfvm/src/io/parallel_netcdf_write_attributes.cpp
index 1851b34..39d096f 100644
--- a/alsfvm/src/io/parallel_netcdf_write_attributes.cpp
+++ b/alsfvm/src/io/parallel_netcdf_write_attributes.cpp
@@ -27,7 +27,8 @@ void parallelNetcdfWriteAttributes(netcdf_raw_ptr varid,
 
     if (propertyTree.empty()) {
         std::string data = propertyTree.data();
-        NETCDF_SAFE_CALL(ncmpi_put_att_text(varid, NC_GLOBAL, basename.c_str(),
+        NETCDF_SAFE_CALL(ncmpi_put_att_text(varid, NC_GLOBAL,
+                makeNetcdfName(basename).c_str(),
                 data.size(), data.c_str()));
     } else {
         for (auto& node : propertyTree) {
-- 
2.43.0


From 5e402cb149f6d8f605b1dc2b61ab7b8ff68cb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 51/56] fix: count the time steps of all samples in the run
 report

Only the samples of the first process were counted when the samples were divided
between several processes.
---
 alsuq/src/run/Runner.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/run/Runner.cpp b/alsuq/src/run/Runner.cpp
index 285b261..adf7e59 100644
--- a/alsuq/src/run/Runner.cpp
+++ b/alsuq/src/run/Runner.cpp
@@ -16,6 +16,7 @@
 #include "alsuq/run/Runner.hpp"
 
 #include "alsutils/log.hpp"
+#include "alsutils/mpi/safe_call.hpp"
 
 namespace alsuq {
 namespace run {
@@ -38,6 +39,7 @@ Runner::Runner(std::shared_ptr<SimulatorCreator> simulatorCreator,
 
 void Runner::run() {
     std::shared_ptr<alsfvm::grid::Grid> grid;
+    unsigned long long timestepsOnProcess = 0;
 
     for (size_t sample : sampleNumbers) {
         ALSVINN_LOG(INFO, "Running sample: " << sample << std::endl);
@@ -69,7 +71,7 @@ void Runner::run() {
 
         while (!simulator->atEnd()) {
             simulator->performStep();
-            timestepsPerformedTotal++;
+            timestepsOnProcess++;
         }
 
         simulator->finalize();
@@ -77,6 +79,12 @@ void Runner::run() {
 
     }
 
+    // The samples are divided between the processes
+    unsigned long long timestepsOnAllProcesses = 0;
+    MPI_SAFE_CALL(MPI_Allreduce(&timestepsOnProcess, &timestepsOnAllProcesses, 1,
+            MPI_UNSIGNED_LONG_LONG, MPI_SUM, mpiConfig->getCommunicator()));
+    timestepsPerformedTotal += timestepsOnAllProcesses;
+
     for (auto& statisticsWriter : statistics) {
         statisticsWriter->combineStatistics();
 
-- 
2.43.0


From 96a9f7843bea35827af730fbb3bcec22c39df983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 52/56] fix: read configurations with comments in the python
 interface

Comments and CDATA sections have no tag name, and the numbers of a vector can be
separated by tabs.
---
 python/alsvinn/alsvinn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 7af1081..abe671f 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -123,7 +123,7 @@ class Alsvinn(object):
     def __make_float(self, text):
 
         text = text.strip()
-        splitted = text.split(" ")
+        splitted = text.split()
         if len(splitted) == 1:
             return float(splitted[0])
         else:
@@ -134,7 +134,7 @@ class Alsvinn(object):
 
     def __make_int(self, text):
         text = text.strip()
-        splitted = text.split(" ")
+        splitted = text.split()
         if len(splitted) == 1:
             return int(splitted[0])
         else:
@@ -365,14 +365,16 @@ class Alsvinn(object):
 
         for child in document.childNodes:
 
-            if child.nodeType == child.TEXT_NODE:
+            if child.nodeType != child.ELEMENT_NODE:
                 continue
             key = child.tagName
             values = []
             names = []
             textNode = False
             for possibleValue in child.childNodes:
-                if possibleValue.nodeType == child.TEXT_NODE:
+                if possibleValue.nodeType == child.COMMENT_NODE:
+                    continue
+                elif possibleValue.nodeType in (child.TEXT_NODE, child.CDATA_SECTION_NODE):
                     if possibleValue.nodeValue.strip() != '':
                         values.append(possibleValue)
                         textNode = True
-- 
2.43.0


From 814149d892b03ef7fc8f1cae5ddeaa5cc7d8de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 53/56] fix: find the initial data file in the python interface

The file of a configuration in another folder was not found when it was named after
the run, a file given to set_initial_data was looked for next to the configuration (or
failed without one), and a file named after the run in the working directory could not
be used.
---
 python/alsvinn/alsvinn.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index abe671f..545a527 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -19,6 +19,10 @@ import subprocess
 import tempfile
 import re
 
+def copy_unless_same(source, destination):
+    if os.path.abspath(source) != os.path.abspath(destination):
+        shutil.copyfile(source, destination)
+
 class Alsvinn(object):
     def __init__(self, xml_file=None, configuration=None,
                  alsvinncli=ALSVINNCLI_PATH,
@@ -85,7 +89,6 @@ class Alsvinn(object):
 
 
     def read_xml(self, xml_file):
-        self.source_xml_path=xml_file
         document = xml.dom.minidom.parse(xml_file)
         configDocument = document.getElementsByTagName("config")[0]
         fvmDocument = configDocument.getElementsByTagName("fvm")[0]
@@ -109,6 +112,10 @@ class Alsvinn(object):
         self.fvmSettings["grid"]["dimension"] = self.__make_int(self.fvmSettings["grid"]["dimension"])
         self.fvmSettings["endTime"] = self.__make_float(self.fvmSettings["endTime"])
 
+        # The path in the file is relative to the file
+        self.fvmSettings["initialData"]["python"] = os.path.join(os.path.dirname(xml_file),
+                                                                 self.fvmSettings["initialData"]["python"])
+
 
     def set_lower_corner(self, corner):
         self.fvmSettings['grid']['lowerCorner'] = corner
@@ -152,9 +159,8 @@ class Alsvinn(object):
 
         newPythonFile = self.get_name() + '.py'
 
-        if settings["fvm"]["initialData"]["python"] != newPythonFile:
-            shutil.copyfile(os.path.join(os.path.dirname(self.source_xml_path), settings["fvm"]["initialData"]["python"]), newPythonFile)
-            settings["fvm"]["initialData"]["python"] = newPythonFile
+        copy_unless_same(settings["fvm"]["initialData"]["python"], newPythonFile)
+        settings["fvm"]["initialData"]["python"] = newPythonFile
 
         xmlObject = dicttoxml.dicttoxml( settings, custom_root='config', attr_type=False, item_func=self.__xml_item_func)
 
@@ -582,7 +588,7 @@ else:
             f.write(initial_data_script)
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
     elif initial_data_file is not None:
-        shutil.copyfile(initial_data_file, name+'.py')
+        copy_unless_same(initial_data_file, name+'.py')
         initial_data_file=name+'.py'
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
     if equation_parameters is not None:
-- 
2.43.0


From dc521c2847cee5203ccb4dcac1662dc426721507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 54/56] fix: look for the time in the data path

get_data looked in the data path, while get_time looked in the working directory.
---
 python/alsvinn/alsvinn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 545a527..f7c82a6 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -325,6 +325,8 @@ class Alsvinn(object):
             raise Exception("unknown file format " + type)
 
         filename = "{basename}_{timestep}.{type}".format(basename=basename, timestep=timestep, type=append)
+        filename = os.path.join(self.data_path, filename)
+
         if type == "netcdf":
             with netCDF4.Dataset(filename) as f:
                 return f.variables['time'][0]
-- 
2.43.0


From 7d3d7d682e2158bf26a6c650e5090b59b0d7a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 55/56] fix: scale the eigenvectors of the Euler equations in
 two and three dimensions

The TeCNO diffusion R|L|R^T approximates |A| times the jump of the conserved
variables only if R R^T is the derivative of the conserved variables with
respect to the entropy variables. Euler<1> was scaled this way, Euler<2> and
Euler<3> were not, so their diffusion was off by factors like 1/p and runs with
a valid Courant number could blow up.
---
 .../include/alsfvm/equation/euler/Euler.hpp   | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index d60985c..492c967 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -460,6 +460,20 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
         matrixWithEigenVectors(4, 3) = primitive.u.z;
         matrixWithEigenVectors(4, 4) = H + primitive.u.x * a;
 
+        // Scale the eigenvectors so that R * R^T is the derivative of the conserved
+        // variables with respect to the entropy variables (as for Euler<1>)
+        const real a1 = sqrt(conserved.rho / (2 * gamma));
+        const real a2 = sqrt(conserved.rho * (gamma - 1) / gamma);
+        const real a3 = sqrt(primitive.p);
+
+        for (int row = 0; row < 5; ++row) {
+            matrixWithEigenVectors(row, 0) *= a1;
+            matrixWithEigenVectors(row, 1) *= a2;
+            matrixWithEigenVectors(row, 2) *= a3;
+            matrixWithEigenVectors(row, 3) *= a3;
+            matrixWithEigenVectors(row, 4) *= a1;
+        }
+
         // Rotate the eigenvectors back to the original coordinates
         for (int column = 0; column < 5; ++column) {
             const real mx = matrixWithEigenVectors(1, column);
@@ -473,7 +487,7 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
             }
         }
 
-        return matrixWithEigenVectors.normalized();
+        return matrixWithEigenVectors;
     }
 
 
@@ -557,6 +571,19 @@ __device__ __host__ matrix4 Euler<2>::computeEigenVectorMatrix(
         matrixWithEigenVectors(3, 2) = primitive.u.y;
         matrixWithEigenVectors(3, 3) = H + primitive.u.x * a;
 
+        // Scale the eigenvectors so that R * R^T is the derivative of the conserved
+        // variables with respect to the entropy variables (as for Euler<1>)
+        const real a1 = sqrt(conserved.rho / (2 * gamma));
+        const real a2 = sqrt(conserved.rho * (gamma - 1) / gamma);
+        const real a3 = sqrt(primitive.p);
+
+        for (int row = 0; row < 4; ++row) {
+            matrixWithEigenVectors(row, 0) *= a1;
+            matrixWithEigenVectors(row, 1) *= a2;
+            matrixWithEigenVectors(row, 2) *= a3;
+            matrixWithEigenVectors(row, 3) *= a1;
+        }
+
         if (direction == 1) {
             // Rotate the eigenvectors back to the original coordinates
             for (int column = 0; column < 4; ++column) {
-- 
2.43.0


From bc027c0ac149e055510a58a241a2fd1492e21d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 56/56] fix: protect the timer database against concurrent
 creation of timers

The cell exchange thread of ConservedSystem creates timers in the same
std::map the computing thread is looking its timers up in.
---
 alsutils/include/alsutils/timer/TimerDatabase.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alsutils/include/alsutils/timer/TimerDatabase.hpp b/alsutils/include/alsutils/timer/TimerDatabase.hpp
index ce888bb..96cac62 100644
--- a/alsutils/include/alsutils/timer/TimerDatabase.hpp
+++ b/alsutils/include/alsutils/timer/TimerDatabase.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "alsutils/timer/TimerData.hpp"
 #include <boost/property_tree/ptree.hpp>
+#include <mutex>
 namespace alsutils {
 namespace timer {
 
@@ -9,8 +10,12 @@ class TimerDatabase {
 public:
     static TimerDatabase& getInstance();
 
+    //! Several threads may look up (and create) timers at the same time,
+    //! the cell exchange for instance runs in a thread of its own. References
+    //! to the data stay valid when other timers are created.
     template<class ...T>
     TimerData& getTimerData(T... names) {
+        std::lock_guard<std::mutex> lock(mutex);
         return root.getTimerData(names...);
     }
 
@@ -20,6 +25,7 @@ public:
     boost::property_tree::ptree getTimesAsPropertyTree() const;
 
 private:
+    std::mutex mutex;
     TimerData root;
 };
 } // namespace timer
-- 
2.43.0

