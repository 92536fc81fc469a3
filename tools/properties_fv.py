"""Properties of meshes, linear systems, finite-volume operators, the DSL and time integration."""
from properties_kokkos import GEN, TRUST
MESHES = "Geometry is integer, so that results are exact rationals. "


def add(prop, NA):
    prop("C21", "A mesh and its boundary patches are consistent for every size and executor",
         "The mesh factories give meshes whose counts, connectivity, centres, volumes and boundary data agree with one another for every size: owner and neighbour exist, the cells partition the domain, and volumes add up. "
         "What a mesh returns is what it was given, on every executor; the patches of a boundary partition its faces in order, and the view of a patch is exactly that patch's part of the data.",
         ["inputs", "configurations"], "every mesh (connectivity, patches also empty), size and executor",
         "Tests build one mesh of one size and compare a few entries.",
         ["src/mesh/unstructured/unstructuredMesh.cpp", "include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp", "src/mesh/unstructured/boundaryMesh.cpp", "include/NeoFOAM/mesh/unstructured/boundaryMesh.hpp"],
         [("factories and getters", "src/mesh/unstructured/unstructuredMesh.cpp"), ("patch views by offset", "src/mesh/unstructured/boundaryMesh.cpp")],
         "TLA+ spec Mesh.tla (factories) checked with TLC; behaviours replayed on all executors", GEN + TRUST)
    prop("C22", "Cell-to-face stencil and matrix pattern hold every face, once, where it belongs",
         "The cell-to-face stencil lists for each cell exactly its faces, internal and boundary, each once. "
         "The sparsity pattern has one row per cell with exactly the diagonal and one entry per neighbouring cell, and the recorded offsets of owner, neighbour and diagonal of every internal face point to exactly those entries, whatever the numbering of cells and faces, the executor and the schedule; the result is built once per mesh and shared.",
         ["inputs", "schedules"], "every mesh topology, numbering, executor and schedule",
         "Tests use a one-dimensional mesh, where numbering is sorted and every cell has two faces.",
         ["src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp", "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"],
         [("computeStencil", "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp"), ("SparsityPattern::update", "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"), ("StencilDataBase", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp")],
         "TLA+ spec Mesh.tla (topology) checked with TLC; behaviours replayed on all executors", GEN + TRUST)
    prop("C23", "Interpolation weights and face distances follow from the geometry of the mesh",
         "The geometry scheme gives for each internal face the weight of the owner by distance along the face normal (between 0 and 1, 1/2 when undefined, independent of which cell is the owner), and 1 on boundaries. "
         "Delta coefficients are inverse distances between the cells on both sides, non-orthogonal ones the bounded inverse of the distance along the normal, for every geometry, executor and schedule; a scheme is built once per mesh and shared.",
         ["inputs", "schedules"], "every geometry (skewed, inverted and duplicate faces), executor and schedule",
         "Tests use an equidistant orthogonal mesh, on which all weights and coefficients are the same.",
         ["src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp", "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"],
         [("updateWeights/updateDeltaCoeffs/updateNonOrthDeltaCoeffs", "src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp")],
         "TLA+ spec Mesh.tla (geometry) checked with TLC; behaviours replayed on all executors", GEN + MESHES + TRUST)
    prop("C24", "A linear system keeps what was written, copies are independent, products exact",
         "Reading an existing entry by row and column gives what was written there, and a write changes only that entry; the matrix, right-hand side and pattern agree in size. "
         "Resetting makes all values zero and keeps the pattern; a copy, on any executor, equals the original and is independent of it. A matrix-vector product or residual is that of the dense matrix, on every executor and under every schedule.",
         ["inputs", "histories", "schedules"], "every sparsity pattern, history of writes, copies and resets, executor and schedule",
         "Tests read back one 3x3 matrix without copies in between.",
         ["include/NeoFOAM/linearAlgebra/CSRMatrix.hpp", "include/NeoFOAM/linearAlgebra/linearSystem.hpp", "include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"],
         [("entry/copyToExecutor", "include/NeoFOAM/linearAlgebra/CSRMatrix.hpp"), ("LinearSystem::reset/copy", "include/NeoFOAM/linearAlgebra/linearSystem.hpp")],
         "TLA+ spec LinearSystem.tla checked with TLC; behaviours replayed on all executors", GEN + TRUST)
    prop("C25", "Boundary conditions set exactly the boundary data of their patch",
         "Correcting the boundary of a field sets on each patch what its condition says, from the given values and the values of the adjacent cells: fixed value, fixed gradient (by the distance of that face), extrapolated, calculated, empty. "
         "It changes no cell value and no other patch, doing it twice is doing it once, and it holds for any order of patches (also empty ones), every value type, executor and schedule. Unknown types, or types missing required input, stop the program.",
         ["inputs", "histories", "schedules"], "every mesh, patch layout, choice of conditions, history of changes, executor and schedule",
         "Tests correct a field once, with all patches alike and unit distances.",
         ["include/NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/fixedValue.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/fixedGradient.hpp",
          "include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/extrapolated.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp", "include/NeoFOAM/fields/boundaryFields.hpp"],
         [("correctBoundaryConditions", "include/NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"), ("patch kernels", "include/NeoFOAM/finiteVolume/cellCentred/boundary/volume")],
         "TLA+ spec Boundary.tla checked with TLC; histories replayed on all executors", GEN + TRUST)
    FV = "include/NeoFOAM/finiteVolume/cellCentred/"
    SRC = "src/finiteVolume/cellCentred/"
    prop("C26", "Interpolation, face gradients and cell gradients are those of the scheme",
         "Interpolating to faces gives on each internal face the linear mean by the geometric weights, or the value upstream of the flux, always between the two cells, and the boundary value on boundary faces. "
         "Face normal gradients are differences times the non-orthogonal coefficients; the cell gradient is the Gauss sum over the cell's faces and zero for a uniform field on closed meshes. All hold for every mesh, value type, executor, schedule and way of naming the scheme, and a scheme that needs a flux stops without one.",
         ["inputs", "schedules", "configurations"], "every mesh, field, flux, boundary condition, executor, schedule and way to choose the scheme",
         "Tests interpolate constant fields on one uniform mesh, on which every face and both schemes look alike.",
         [FV + "interpolation/linear.hpp", SRC + "interpolation/linear.cpp", SRC + "interpolation/upwind.cpp", FV + "interpolation/surfaceInterpolation.hpp",
          SRC + "faceNormalGradient/uncorrected.cpp", SRC + "operators/gaussGreenGrad.cpp"],
         [("computeLinearInterpolation", SRC + "interpolation/linear.cpp"), ("computeUpwindInterpolation", SRC + "interpolation/upwind.cpp"),
          ("computeFaceNormalGrad", SRC + "faceNormalGradient/uncorrected.cpp"), ("computeGrad", SRC + "operators/gaussGreenGrad.cpp")],
         "TLA+ spec FiniteVolume.tla (schemes) checked with TLC; behaviours replayed on all executors", GEN + MESHES + TRUST)
    prop("C27", "Explicit finite-volume operators add their discrete sum and conserve",
         "Divergence, laplacian, source, surface integral and time derivative add to each cell their coefficient times the discrete operator, by the schemes named in the configuration; what leaves one cell enters its neighbour, so that sums over all cells leave only the boundary. "
         "Returned fields are the same operators, whatever was in memory before, and the Courant number is the largest of half the flux per volume and time step. They change nothing else, for every mesh, value type, coefficient, executor, schedule and way to construct the operator.",
         ["inputs", "histories", "schedules"], "every mesh, field, flux, coefficient (numbers and fields), sequence of operators, executor and schedule",
         "Tests use constant fields on a uniform one-dimensional mesh, where most terms vanish.",
         [SRC + "operators/gaussGreenDiv.cpp", SRC + "operators/gaussGreenLaplacian.cpp", SRC + "operators/sourceTerm.cpp", SRC + "operators/surfaceIntegrate.cpp",
          SRC + "operators/ddtOperator.cpp", FV + "operators/divOperator.hpp", FV + "operators/laplacianOperator.hpp", SRC + "auxiliary/coNum.cpp"],
         [("computeDiv", SRC + "operators/gaussGreenDiv.cpp"), ("computeLaplacianExp", SRC + "operators/gaussGreenLaplacian.cpp"), ("computeCoNum", SRC + "auxiliary/coNum.cpp")],
         "TLA+ spec FiniteVolume.tla (explicit) checked with TLC; behaviours replayed on all executors", GEN + MESHES + TRUST)
    prop("C28", "Implicit operators assemble the linear system of their explicit form",
         "Divergence, laplacian, source and time derivative add to the linear system the coefficients of the operator, so that matrix times field minus right-hand side is the explicit operator times the volume, boundary conditions of every kind included. "
         "The laplacian is symmetric and away from the boundary its rows add up to zero, as do the columns of the divergence; entries accumulate over any sequence of operators and coefficients, for every mesh, value type, executor and schedule.",
         ["inputs", "histories", "schedules"], "every mesh, field, flux, boundary condition, coefficient, sequence of operators, executor and schedule",
         "Tests check a few entries on a uniform one-dimensional mesh with fixed values.",
         [SRC + "operators/gaussGreenDiv.cpp", SRC + "operators/gaussGreenLaplacian.cpp", SRC + "operators/sourceTerm.cpp", SRC + "operators/ddtOperator.cpp"],
         [("computeDivImp", SRC + "operators/gaussGreenDiv.cpp"), ("computeLaplacianImpl", SRC + "operators/gaussGreenLaplacian.cpp"), ("implicitOperation", SRC + "operators/sourceTerm.cpp")],
         "TLA+ spec FiniteVolume.tla (implicit, Consistent) checked with TLC; behaviours replayed on all executors", GEN + MESHES + TRUST)
    DSL = "include/NeoFOAM/dsl/"
    prop("C29", "Expressions are the algebra of their operators; copies are independent",
         "Sums, differences and products with numbers, fields and coefficients evaluate to the sums, differences and products of the values of their terms, explicit terms by explicit and implicit ones by implicit evaluation, spatial and temporal apart; the coefficient of each term reads the fields it refers to at evaluation. "
         "Building an expression builds each of its terms, and no operation changes anything but its target: operands, copies and moved-to values are independent. A product of two coefficients that both refer to fields stops the program.",
         ["inputs", "histories"], "every expression, history of copies, moves, products, sums and changes of the fields, value type and executor",
         "Tests evaluate four fixed expressions on one cell.",
         [DSL + "coeff.hpp", "src/dsl/coeff.cpp", DSL + "operator.hpp", DSL + "spatialOperator.hpp", DSL + "temporalOperator.hpp", DSL + "expression.hpp"],
         [("Coeff::operator*=", "src/dsl/coeff.cpp"), ("clone and operator*", DSL + "spatialOperator.hpp"), ("operator+ and operator-", DSL + "expression.hpp")],
         "TLA+ spec Dsl.tla (Linear, Local) checked with TLC; histories replayed on all executors", GEN + TRUST)
    prop("C30", "Solving advances the field by its equation; boundary and old time follow",
         "Forward Euler gives old minus time step times the explicit terms; backward Euler and steady solves hand the linear solver of the solution dictionary exactly the matrix and right-hand side of all terms, explicit ones included, and take its answer. "
         "After a step in time the boundary follows from the new values and the old field equals the new one, over any number of steps, equations, executors and schedules, with new, kept or copied integrators; nothing else changes. An empty equation, an unknown integrator or an unknown solver stops the program, a missing entry is reported.",
         ["inputs", "histories", "schedules"], "every equation, mesh, time step, sequence of steps and changes, answer of the linear solver, executor and schedule",
         "Tests take a single step of one equation, and those that solve need a linear solver library.",
         [DSL + "solver.hpp", "include/NeoFOAM/timeIntegration/forwardEuler.hpp", "include/NeoFOAM/timeIntegration/backwardEuler.hpp", "include/NeoFOAM/timeIntegration/timeIntegration.hpp", "include/NeoFOAM/linearAlgebra/solver.hpp"],
         [("dsl::solve", DSL + "solver.hpp"), ("ForwardEuler::solve", "include/NeoFOAM/timeIntegration/forwardEuler.hpp"), ("BackwardEuler::solve", "include/NeoFOAM/timeIntegration/backwardEuler.hpp")],
         "TLA+ spec TimeIntegration.tla (solver as environment) checked with TLC; histories replayed", GEN + MESHES + "The linear solver is a stand-in that answers what the specification says. " + TRUST)
    DBD = "include/NeoFOAM/core/database/"
    prop("C31", "A registered field is one object; its old time is made once and kept",
         "Registering a field stores it under a new key with its values, boundary values, conditions and indices, indices not given being those of its source; every look-up yields that same object in its own collection and database. "
         "The field at the old time is made when first asked for, as a registered copy of the field as it then is, named after it and one time index back; afterwards it is the same object, changed only through itself, chains of any length counting their level and current field. "
         "Constant fields, invalid documents, taken keys, wrong types and unregistered fields never create or change anything: they are reported.",
         ["histories", "inputs"], "every history of registrations, old-time requests, copies, changes, look-ups and removals, over several collections and databases, value type and executor",
         "Tests register three fields and follow one chain of two old times.",
         [DBD + "fieldCollection.hpp", "src/core/database/fieldCollection.cpp", DBD + "oldTimeCollection.hpp", "src/core/database/oldTimeCollection.cpp", "include/NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"],
         [("registerField, CreateFromExistingField", DBD + "fieldCollection.hpp"), ("getOrInsert", DBD + "oldTimeCollection.hpp"), ("setCurrentFieldAndLevel", "src/core/database/oldTimeCollection.cpp")],
         "TLA+ spec FieldHistory.tla checked with TLC; histories replayed on all executors", GEN + TRUST)
    prop("C32", "Runge-Kutta steps use the equation, values and time they are given",
         "A first-order Runge-Kutta step gives the old values minus the time step times the explicit terms of the equation it is handed, starting from the old field and time it is handed - whatever the integrator solved before, whether it is new, kept or a copy. "
         "Afterwards the boundary follows from the new values and the old field equals the new one, on every executor and schedule; nothing else changes. "
         "Methods that are unknown or not supported stop the program, a missing method is reported.",
         ["inputs", "histories", "schedules"], "every explicit equation, mesh, time step, sequence of steps and changes, executor and schedule, kept or copied integrator",
         "Tests need the SUNDIALS library, integrate one equation on one cell and make a new integrator for every step.",
         ["include/NeoFOAM/timeIntegration/rungeKutta.hpp", "src/timeIntegration/rungeKutta.cpp", "include/NeoFOAM/timeIntegration/sundials.hpp", "include/NeoFOAM/timeIntegration/timeIntegration.hpp"],
         [("RungeKutta::solve and clone", "src/timeIntegration/rungeKutta.cpp"), ("explicitRKSolve, SKVector, stringToERKTable", "include/NeoFOAM/timeIntegration/sundials.hpp")],
         "TLA+ spec TimeIntegration.tla checked with TLC; histories replayed, SUNDIALS stand-in", GEN + MESHES + "SUNDIALS is a stand-in: vectors on the executor and an explicit integrator with a state of its own. " + TRUST)
