NA = {
 "C37": "convergence and quality of the Gaussian fit are properties of computed values inside an external solver; no static argument in reach bounds them",
 "C38": "accuracy of the centre of mass and phase reconstruction is a numerical relation between run-time values; only its index arithmetic is structural, and that is claimed as C26",
 "C39": "the MPI code is not compiled in this environment (no MPI headers), so no type-checked program exists to analyse; equality across ranks is also a relation between run-time values",
 "C40": "termination of a run depends on the number of complete blocks the files contain",
}
IV = "abstract interpretation (value numbering with loop summaries over the AST of every instantiation); "
TECH = {
 "C13": IV + "guard of the event-reporting statement compared with the prescribed predicate",
 "C16": IV + "closed form of the mask content compared with the prescribed predicate",
}
NOTE = {
 "C13": "the derived guard is a formula per pixel; it is compared with the rule by identity testing over all pixel classes and tie patterns",
 "C16": "the derived closed form of the buffer content is compared with the rule by identity testing over dimensions, radii and centres including every boundary",
}
TECH["C14"] = IV + "closed form of the frame content that reaches the peak search compared with the prescribed sequence"
NOTE["C14"] = "closed forms per pixel, compared by identity testing over thresholds on, below and above the corrected values; rational arithmetic"
TECH["C15"] = IV + "null-guard analysis of every read through an optional array and closed form of the frame per combination of supplied arrays"
NOTE["C15"] = "the guard analysis covers every path of the dispatch; the closed forms are compared by identity testing for each combination of supplied arrays"
TECH["C17"] = IV + "closed form of every accumulation (index, operand, width, atomicity) compared with the prescribed sums"
NOTE["C17"] = "all instantiations of the dense, sparse and radial reductions; operand and index formulas compared by identity testing"
TECH["C36"] = IV + "index and size of every array access compared with the array bounds under the path condition (linear entailment, then search for a violating assignment)"
NOTE["C36"] = "entailment where the path condition gives both bounds; otherwise the closed forms are evaluated over families of samples and settings"
TECH["C11"] = IV + "closed forms of pointer, item size, format, shape and strides of every exported buffer compared with the row-major layout of the object's storage"
NOTE["C11"] = "every def_buffer registration and every allocating constructor; formulas compared by identity testing over non-square sizes"

TECH["C18"] = IV + "value flow from option fields and threshold statistics to same-named fields, parameters, metadata and registered attributes"
NOTE["C18"] = "every conversion, counting entry, metadata field and attribute table; statistics compared by identity testing over sample sets"

CC = "abstract interpretation of the reader/pool/counter composition with one abstract thread per spawn site; "
TECH["C01"] = CC + "static race detection (locksets with mutex identity, spawn/join order, release-acquire publication) over the per-position lists and thresholds"
NOTE["C01"] = "every pair of conflicting accesses in both threaded readers; an ordered pair carries the rule that orders it"
TECH["C02"] = CC + "static race detection (locksets, spawn/join order, publication) over the readers' shared bookkeeping"
NOTE["C02"] = "every pair of conflicting accesses on reader members and on objects shared with its tasks"
TECH["C03"] = CC + "lock-continuity (typestate) analysis of every stream position change and the read that follows it"
NOTE["C03"] = "every stream operation of both threaded readers, in every calling context"
TECH["C04"] = CC + "lock-order graph, re-acquisition, callbacks under locks, and monitor discipline of each condition variable"
NOTE["C04"] = "every acquisition, wait and notification in every calling context, exit guards on exception included"
TECH["C05"] = CC + "lifetime analysis of every object a task uses against the waits (normal and exceptional exits) that end the task"
NOTE["C05"] = "every object captured by or reachable from a task, at every place that starts tasks"
TECH["C06"] = CC + "must-analysis: every future reaches get() on each normal return, handlers rethrow"
NOTE["C06"] = "every place that starts tasks, every handler around a get and in a task"
TECH["C09"] = IV + "every array access selected by a number from a file, image-number table or sparse data, against the linear conditions on the way and the traced size of that array; header counts against buffer sizes; sector guard evaluated at its limits, sector rows enumerated"
NOTE["C09"] = "all counting functions, STEM images, radial sums, readers and the Python reader; frame dimensions large enough to overflow a 32-bit product are outside; a check that an algorithm or unknown function may perform makes the access undecided"
TECH["C10"] = IV + "placement of every sector read evaluated from its symbolic destination and byte count; order of count, read, seek and tellg"
NOTE["C10"] = "the three sector readers, versions 4 and 5, all four sectors; short files (a read that delivers fewer bytes) are outside"
TECH["C07"] = "interprocedural lock-state walk over the type-checked syntax tree: implicit copies, assignments, destructors and captured values of types that own Python references, against scoped acquire/release guards and call guards of the bindings"
NOTE["C07"] = "every function registered with Python and every task it starts; reading an array's address, shape or size is allowed without the lock"
TECH["C08"] = "the same lock-state walk: waits of the calling thread with the lock held against acquisitions in the tasks it starts; agreement of the call guards of overloads"
NOTE["C08"] = "every function registered with Python"
TECH["C12"] = "type query: contiguity flag and element type of the static NumPy array type at every place that takes its data pointer"
NOTE["C12"] = "every data()/request() on a pybind11 array in instantiated code; code going by strides is left undecided"
TECH["C24"] = IV + "final state of reset() against the fields the reading function changes and the constructor's start values; must-initialise-before-spawn dataflow for the full reads of the threaded readers"
NOTE["C24"] = "StreamReader, SectorStreamReader, PyReader reset; the threaded and two-pass full reads; position of streams inside a container is covered by the container being rebuilt"
TECH["C19"] = IV + "provenance of the result's container: symbolic size of the last resize against the reported dimensions, uniform-length loop summary, recurrence of the maximum, happens-before between workers' writes and the equalising pass"
NOTE["C19"] = "both threaded full reads (float data with dark reference) and the three iterator-based counting functions; other element types share the template source; MPI code is not compiled here"

PY = "path-forking abstract interpretation of the Python package (shared engine over its syntax tree): "
TECH["C27"] = PY + "may/must alias sets of storage per value; stores, attribute changes and results checked against the storage of the input"
NOTE["C27"] = "every public query, in_place false where it is a choice, and the image functions; aliasing that depends on the kind of index is undecided"
TECH["C28"] = PY + "typestate of every setting of SparseArray on all normal and exceptional exits"
NOTE["C28"] = "every public method, property and image function taking an array; calls that may raise are exits unless a finally or handler protects them"
TECH["C29"] = PY + "terms stored in every derived array compared with the source's settings; shape algebra of allocation and selection against the stored shapes"
NOTE["C29"] = "every construct site reached from a public method; sizes of selections are named unknowns, compared by identity testing over several shapes"
TECH["C30"] = PY + "typestate of every cached result on all exits of the methods that change the array; arguments of the native calls"
NOTE["C30"] = "caches are derived (attributes attached outside the constructor, cached properties, memoised and lazily computed values); direct writes to array.data by user code are outside"
TECH["C32"] = PY + "reachability of every dense allocation under the permission, by evaluation of shape and path condition"
NOTE["C32"] = "families of covering selections (slices, masks, index lists, repeats; 1-D and 2-D scans) evaluated on the path conditions; selections are represented by the shape they give"
TECH["C26"] = PY + "units-of-measure style inference of flat pixel and scan numbers; split and rebuild terms evaluated over all pixels of non-square shapes"
NOTE["C26"] = "all terms computed by SparseArray methods, array functions and read_frames; closed forms compared by identity testing over three non-square shapes"
TECH["C31"] = PY + "multiplicity evaluation of the summarised split loops and overwrite analysis of accumulating loops"
NOTE["C31"] = "Split loops are evaluated for pixel multiplicities 1, 2, 5 and 3 from their loop summary; forms of the split other than a loop around np.unique counts are reported undecided, not proved."
TECH["C33"] = PY + "interpretation of every reduction for a position without events: path feasibility and stored value under empty counts; type-family typestate of limits"
NOTE["C33"] = "Guards and stored values are evaluated for empty counts from the terms of the source; conditions that are not understood are reported undecided."
TECH["C34"] = PY + "path conditions of from_hdf5 and of the conversion dispatch evaluated for every version number; provenance of the converted frames and positions"
NOTE["C34"] = "versions -1..current+6, with and without flyback column; the copy loop of the cropped read is evaluated from its slice bounds for a 4x3 scan."
TECH["C35"] = PY + "path conditions of every returned path evaluated for 0, 1 and 2 matches; exception types against the handlers on the way"
NOTE["C35"] = "all lookup functions of contrib, versions -1..7; patterns built with f-strings, others are not judged"

TECH["C23"] = PY + ": symbolic HDF5 paths with written/read name sets, evaluation of stored and restored shapes over non-square sizes; C++ value analysis of the native export calls"
NOTE["C23"] = "names of every write/read pair, axes, order, width and version; files written by other programs are out of scope"

TECH["C20"] = IV + "typestate (unopened, open, closed) of every HDF5 identifier over all consistent valuations of the path conditions, scope-guard destructors inlined; class-level ownership of identifiers kept in members"
NOTE["C20"] = "every function and template instantiation of the h5 layer; exceptions of the standard library between opening and guarding are outside"
TECH["C21"] = IV + "result of every write function evaluated on all consistent valuations of the library statuses; must-throw paths of the callers"
NOTE["C21"] = "layer functions that create or write, and every caller in the repository; a failed H5Fclose is not covered (close() returns nothing)"
TECH["C22"] = "cross-checking of constant tables and specialisations read from the type-checked program; dataflow of the type arguments of HDF5 calls in every template instantiation"
NOTE["C22"] = "byte order of memory types is judged for this (little-endian) target"
TECH["C25"] = IV + "dominance of the header writes (version, dimensions, image numbers) over every path that sets a number of images; enumeration of the version dispatch through the path conditions of header readers and throws; path-forking abstract interpretation of the Python front end and iteration protocol"
NOTE["C25"] = "all C++ readers of this build, the PyReader, reader() and ReaderMixin; versions 0-9; the version stated inside a version 1 file is taken as non-zero; that the data of the block is complete is the subject of C01-C03"
