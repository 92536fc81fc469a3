"""Properties of the part that needs Kokkos and/or MPI (built against shim/ and stub/)."""
GEN = ("TLC enumerates the specification exhaustively at small bounds and samples it at larger ones; the behaviours are replayed into the real code, "
       "built against a Kokkos stand-in that varies the executor, the schedule and the memory space, under ASan/UBSan. ")
MPI = ("TLC enumerates the specification exhaustively at small bounds and samples it at larger ones; the behaviours are replayed into the real code, "
       "built against an MPI stand-in that runs all ranks in one process and obeys the delivery order TLC chose, under ASan/UBSan. ")
TRUST = "Trusts the driver, the stand-in and TLC; bounded, not a proof."


def add(prop, NA):
    prop("C10", "Vectors compute component by component, whatever the operands alias",
         "Sums, differences, products with scalars and integers, in place or not, give in each component exactly the result for that component, also where operands are the same vector or the factor is one of its own components; only the target changes. "
         "The inner product, magnitude and comparison agree with the components; every way to read, write and build a vector (brackets, data, constants, zero, one, default) addresses the same three components.",
         ["inputs", "histories"], "every history of operations on vectors, including all aliasing of operands",
         "Tests compute each operation once, on distinct vectors.",
         ["include/NeoFOAM/core/primitives/vector.hpp", "src/core/primitives/vector.cpp", "include/NeoFOAM/core/primitives/scalar.hpp"],
         [("Vector::operator*=, operator+=, operator-=", "include/NeoFOAM/core/primitives/vector.hpp"), ("operator&, mag, zero, one", "include/NeoFOAM/core/primitives/vector.hpp")],
         "TLA+ spec Vector.tla (Laws, CauchySchwarz, OthersStay) checked with TLC; histories replayed", GEN + TRUST)
    prop("C15", "Fields are values: arithmetic is element-wise, operands stay unchanged",
         "Copying, assigning, copying to the host or to another executor yields an equal, independent field; arithmetic gives in each element exactly the result for that element, on every executor and under every schedule, and changes only its target. "
         "Range operations (map, fill, set) change exactly the given non-empty range; resizing keeps the common front part; comparison is true exactly for element-wise equal contents. Operations on unequal sizes or executors where they are forbidden are reported.",
         ["inputs", "histories", "schedules"], "every field length, content, executor, schedule and history of operations",
         "Tests use small constant fields, where a wrong element, range or operand does not show, and never mix operations on shared operands.",
         ["include/NeoFOAM/fields/field.hpp", "include/NeoFOAM/fields/fieldFreeFunctions.hpp"],
         [("copy/assign/resize/apply", "include/NeoFOAM/fields/field.hpp"), ("map/fill/setField/fieldBinaryOp", "include/NeoFOAM/fields/fieldFreeFunctions.hpp")],
         "TLA+ spec Fields.tla checked with TLC; behaviours replayed on serial, CPU and GPU stand-in executors", GEN + TRUST)
    prop("C16", "Parallel loops, reductions and scans give the serial result on every schedule",
         "A parallel loop calls its body exactly once for every index of its range and for no other, on every executor and under every schedule; for an empty range it calls nothing. "
         "A reduction combines exactly the contributions of its range, whatever its result variable held before, a scan yields at every index the sum of all earlier contributions (and the total where asked for), all equal to the serial result for operations that do not depend on the order.",
         ["schedules", "inputs"], "every range, executor, schedule and number of workers",
         "Tests run one fixed range on whichever executor is present.",
         ["include/NeoFOAM/core/parallelAlgorithms.hpp"],
         [("parallelFor/parallelReduce/parallelScan", "include/NeoFOAM/core/parallelAlgorithms.hpp")],
         "TLA+ specs ParallelAlgorithms.tla, ParallelRun.tla: replay, interleaving model, trace validation of launches", GEN +
         "Recorded multi-threaded launches are validated against ParallelRunTrace.tla. " + TRUST)
    prop("C17", "Segments partition their values in order, for any lengths",
         "For any list of segment lengths, also with zeros or empty, the offsets start at 0, grow by exactly each length and end at their sum, and every value belongs to exactly one segment. "
         "Range, length and subview of a segment agree with these offsets, writes through one segment show nowhere else, and building from lengths gives storage for exactly the sum of the lengths on every executor and schedule.",
         ["inputs", "schedules"], "every list of lengths, every executor and schedule",
         "Tests use one list of three to five positive lengths.",
         ["include/NeoFOAM/fields/segmentedField.hpp"],
         [("segmentsFromIntervals by scan", "include/NeoFOAM/fields/segmentedField.hpp")],
         "TLA+ spec ParallelAlgorithms.tla (segments) checked with TLC; behaviours replayed", GEN + TRUST)
    prop("C18", "A communication buffer delivers each rank its own bytes or stops",
         "After initialisation, sizing, start and completion, the receive part for every rank holds exactly the values that rank put in its send part for this one, for every element type, sizes and delivery order; send data stay as written. "
         "In debug builds every call that does not fit the state of the buffer (not initialised, other communication active, type in use, resize while in use) ends the program instead of continuing; a buffer whose communication is complete and finalised can be used again, with other types and sizes.",
         ["schedules", "histories", "inputs"], "every rank count, size table, type sequence, order of calls and delivery order",
         "Tests run one round with all ranks equal, and never call in the wrong state.",
         ["include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp", "include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"],
         [("state checks before every call", "src/core/mpi/halfDuplexCommBuffer.cpp")],
         "TLA+ spec CommBuffer.tla checked with TLC; behaviours replayed on an in-process MPI stand-in", MPI + TRUST)
    prop("C19", "A halo exchange delivers the neighbours' values of the same round, nothing else",
         "After completing a communication, every receive position of the field holds the value that the sending rank's field held at the matching send position when it started that communication; all other positions are untouched. "
         "This holds for any rank topology, element type and number of concurrent named communications, repeated rounds with ranks ahead of one another, and every message delivery order; completion is reported only when all has arrived, and nothing deadlocks.",
         ["schedules", "histories", "inputs"], "every rank map, set of concurrent communications, interleaving of ranks and message delivery",
         "The tests of this class need MPI and use one symmetric map, one round, one communication.",
         ["include/NeoFOAM/mesh/unstructured/communicator.hpp", "src/mesh/unstructured/communicator.cpp", "include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"],
         [("startComm/isComplete/finaliseComm", "include/NeoFOAM/mesh/unstructured/communicator.hpp")],
         "TLA+ spec Halo.tla (safety, no deadlock) checked with TLC; behaviours replayed on an MPI stand-in", MPI + TRUST)
    prop("C20", "Global reductions use the type, operation and size of the value reduced",
         "Reducing over all ranks leaves on every rank the combination of all contributions by the requested operation, for every supported type (component-wise for vectors); a combination of type and operation that does not exist ends the program rather than giving a value. "
         "A typed message transports exactly the values sent for every supported type, and rank number and count are those of the communicator.",
         ["inputs", "configurations"], "every element type, operation, value and number of ranks",
         "The tests of these functions need MPI and use one or two types.",
         ["include/NeoFOAM/core/mpi/operators.hpp", "include/NeoFOAM/core/mpi/environment.hpp"],
         [("getType/getOp tables", "include/NeoFOAM/core/mpi/operators.hpp")],
         "TLA+ spec AllReduce.tla checked with TLC; behaviours replayed on an MPI stand-in with a thread per rank", MPI + TRUST)
