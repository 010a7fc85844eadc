#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as the readable source of it)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
EC="stempy/electron.cpp"; RH="stempy/reader.h"; RC="stempy/reader.cpp"; IC="stempy/image.cpp"; IH="stempy/image.h"
PI="python/image.cpp"; PIO="python/io.cpp"; SA="python/stempy/io/sparse_array.py"; IMG="python/stempy/image/__init__.py"
IO="python/stempy/io/__init__.py"; H5="h5cpp/h5readwrite.cpp"; CO="python/stempy/io/compatibility.py"; CT="python/stempy/contrib/__init__.py"

p("C01","Concurrent counting: a position's event list is never touched unsynchronised",
  "While worker threads are counting frames, every access to the event list of a scan position (by a worker or by the calling thread) is mutually exclusive with every update of that same list, and the collection holding those lists is never resized or replaced while a worker may be using it. The thresholds workers apply are completely written before any worker can read them.",
  ["schedules"],"every interleaving of the worker threads and the calling thread in electron counting with the threaded readers",
  "The stable tests never run a threaded reader on real data; races need particular interleavings of several workers holding frames of one position.",
  [EC,RH],[("per-position mutex array, sample mutex, electronCounting flag",EC+": electronCount(Reader*, options)")],
  [("events / positionMutexes","counted frames per scan position and their locks",EC)],["electron_count() result"])
p("C02","Threaded readers: shared bookkeeping is accessed without data races",
  "In the threaded and the two-pass reader, the queue of files waiting to be read, the list of open files, the cache of partially assembled frames and the map from scan position to frame locations are only read or changed by concurrently running threads under a lock common to all of those accesses.",
  ["schedules"],"every interleaving of reader worker threads",
  "No stable test runs the threaded readers; the accesses race only for particular interleavings.",
  [RH,RC],[("m_queueMutex, m_streamsMutex, m_cacheMutex, m_scanPositionMutexes",RH)],
  [("m_streamQueue, m_streams, m_frameCache, m_scanMap","shared reader state",RH)])
p("C03","Two-pass reader: seeking in a file and reading the sector is one atomic step",
  "When frames are rebuilt from recorded sector locations, the file is positioned and the whole sector read inside one critical section of a lock that belongs to that file, so that no other thread can move the file position in between. Every sector is therefore read from exactly the recorded offset.",
  ["schedules"],"every interleaving of worker threads reading different frames from the same file",
  "Needs several threads reading different frames of one file at once; no stable test does that.",
  [RH],[("SectorStream::mutex held over seekg + readSectorData",RH+": processFrame")])
p("C04","No deadlock or lost wake-up among the library's own locks and conditions",
  "The counting, reading and thread-pool code acquires its locks in one consistent order, never acquires a non-recursive lock the thread already holds, and does not run the caller's per-block function while holding a reader lock. Every blocked waiter re-tests its condition, and every change that can make a waiter's condition true is made under the waiter's lock and followed by a wake-up that reaches every thread waiting for it.",
  ["schedules"],"every interleaving of threads taking these locks and waiting on these conditions",
  "Deadlocks and lost wake-ups appear only under rare interleavings.",
  [EC,RH,RC,"thirdparty/ThreadPool/ThreadPool.h"],[("sampleMutex/sampleCondition, pool queue mutex/condition, unique_lock scopes",EC)])
p("C05","Background tasks never outlive the data they were given",
  "A task handed to a thread pool never uses an object of the calling function after that object's lifetime has ended, however the function is left, including by an exception thrown while tasks are still queued or running. Buffers a task uses through a plain pointer are not freed before the task has finished.",
  ["schedules","fault_sequences"],"every exit (normal or exceptional) of a function that enqueues tasks, every schedule of those tasks",
  "Tests only exercise the normal exit with tasks finishing quickly.",
  [IC,EC,RH],[("declaration order of pool vs data, future.get loops",IC+": createSTEMImages, radialSum")])
p("C06","An exception in a background task reaches the caller",
  "If processing a block fails with an exception on a worker thread, the public call that started the work ends with that exception instead of returning a result that silently lacks data.",
  ["fault_sequences","inputs"],"every task enqueued by STEM imaging, radial sums, electron counting and header scanning; any exception it may throw",
  "The stable tests never make a worker throw.",
  [IC,EC,RH],[("future.get() on every future before the result is returned",IC)])
p("C07","Python objects are only touched by threads that hold the interpreter lock",
  "Every creation, copy, release or use of a Python object or of its reference count by the native code, including the implicit release when the last reference to a Python-backed block is dropped on a worker thread, happens while the executing thread holds the global interpreter lock. (Merely reading the address, shape or size of an array that is kept alive elsewhere needs no lock.)",
  ["schedules","programs"],"every native function reachable from a binding that releases the interpreter lock, and every worker thread",
  "Violations corrupt reference counts only under contention; the tests use one Python thread.",
  [PI,"python/pyreader.cpp","python/pyreader.h"],[("gil_scoped_acquire in DataHolder, PyReader::read, toCpp, ElectronCountedDataPyArray",PI)])
p("C08","Native calls that wait for worker threads release the interpreter lock",
  "Every binding whose native code waits for, or hands Python-backed blocks to, other threads that themselves need the interpreter lock gives that lock up for the duration of the call, so the call cannot deadlock. The overloads of one module function, i.e. its bindings for the reader types, agree on giving the lock up.",
  ["schedules","programs"],"every binding of a function that runs a thread pool or worker threads",
  "A deadlock needs a worker to drop the last reference while the caller waits.",
  [PI,PIO],[("py::call_guard<py::gil_scoped_release> on the module functions",PI)])
p("C09","Positions, sectors and counts taken from a file are checked before indexing",
  "Whatever a data file or image-number table contains, a scan position or frame index taken from it, the sector number parsed from a file name and the number of images in a block are never used to address memory outside the target array; an out-of-range value is rejected with an exception. The same holds for the image number and the frame indices with which frames are asked for from the two-pass reader.",
  ["inputs"],"all header contents, file names and image-number tables",
  "Test data is well formed; an out-of-range value corrupts memory silently.",
  [EC,IC,RC,RH,"python/pyreader.cpp"],[("range checks before indexing with header data",RC)])
p("C10","Each detector sector lands in its own part of the frame, completely",
  "For file versions 4 and 5, the four sectors of a frame are written to disjoint regions of the frame that together cover all of it: version 4 sector s fills the column band [144 s, 144 s + 144) of every row and version 5 sector s fills the row band [144 s, 144 s + 144). The bytes read per sector equal the region's size, and a frame is reported complete only when all four sectors arrived.",
  ["inputs"],"all sector numbers, rows and frames of both versions",
  "No stable test reads sector data at all.",
  [RC,RH],[("readSectorDataVersion4/5, sectorCount == 4",RC)])
p("C11","Arrays exported to Python describe exactly the memory they expose",
  "Every native image, radial sum and data block exposed as a Python buffer reports an element type, item size, shape and strides that match its row-major (…, height, width) storage for every, also non-square, size; the reported extent never exceeds the allocated buffer.",
  ["inputs"],"all frame, scan and block dimensions, square or not",
  "Tests and real detector frames are square, which hides swapped dimensions.",
  [PIO,PI],[("def_buffer lambdas",PI)])
p("C12","NumPy input is only read as a flat array when it is C-contiguous",
  "Wherever native code takes a raw pointer into a caller-supplied NumPy array and walks it linearly, the array is guaranteed to be C-contiguous and of the element type read, for every view, slice or memory order the caller passes.",
  ["inputs"],"all layouts of caller-supplied arrays (data blocks, dark reference, gain, sparse frames)",
  "Tests only pass freshly allocated contiguous arrays.",
  [PI,"python/pyreader.h"],[("py::array_t flags of parameters and members",PI)])
p("C13","A pixel is an electron event iff it exceeds all neighbours inside the frame",
  "A pixel index is reported as an electron event exactly when its value is strictly greater than each of its up to eight neighbours lying inside the frame; pixels on edges and corners are compared only with neighbours that exist, never across the border.",
  ["inputs"],"all frame contents and frame sizes of at least 2x2",
  "Tests have no counted data to compare against and cannot enumerate frame contents.",
  [EC],[("maximalPoints",EC)])
p("C14","All counting paths apply the same dark, gain and threshold rule",
  "In every electron counting path each pixel is first corrected by the dark reference (if given), then by gain (if given), and only then zeroed iff the corrected value is <= the background threshold or >= the x-ray threshold; every pixel of the frame is processed exactly once before events are searched.",
  ["inputs","configurations"],"all pixel values, thresholds and combinations of dark reference, gain and row-dark options in classic and threaded counting",
  "The stable tests run no electron counting.",
  [EC],[("applyRowDark, electronCount(frame), classic electronCount",EC)])
p("C15","The dark/gain variant selected always matches the arrays supplied",
  "Electron counting with any combination of dark reference and gain present or absent, with and without row-dark correction, never reads through an absent array and never ignores a supplied one, in both the counting and the threshold estimation step.",
  ["configurations"],"the 4 combinations of dark/gain presence times row-dark on/off in both counting paths",
  "No stable test counts with missing arrays; a wrong variant reads through a null pointer.",
  [EC,"stempy/electronthresholds.cpp",PI],[("template dispatch on darkReference/gain",EC)])
p("C16","Annular masks select inner <= distance < outer around the right centre",
  "A virtual detector mask contains exactly the pixels (x, y) whose squared distance to the centre d satisfies inner^2 <= d < outer^2, with x the column and y the row of the pixel, and an unspecified (negative) centre coordinate replaced by half of the corresponding frame dimension.",
  ["inputs"],"all frame sizes, radii and centres",
  "Tests sample a few radii on square frames.",
  ["stempy/mask.cpp"],[("createAnnularMask",  "stempy/mask.cpp")])
p("C17","STEM images and radial sums put every pixel into the right 64-bit cell",
  "A STEM image value is the 64-bit sum of exactly the frame's pixels selected by that image's mask, stored at that frame's image number; a radial sum adds each pixel (x, y) atomically to the bin ceil(distance to centre) of that frame's image number, and bins exist for the largest distance occurring in the frame. Offsets into multi-frame blocks are computed without 32-bit overflow.",
  ["inputs","schedules"],"all frame contents, block sizes, image numbers and thread schedules",
  "Tests check few small inputs; overflow needs very large blocks and lost updates need contention.",
  [IC,IH],[("calculateSTEMValues, calculateSTEMValuesSparse, radialSumFrame",IC)])
p("C18","Counting options and statistics arrive under their own names",
  "Every electron counting option set from Python reaches the native computation as the value of the same option, and every statistic of the threshold calculation is reported back under its own name, in the result metadata, the threshold result objects and the metadata dictionary; none is dropped or exchanged for another.",
  ["configurations"],"all option fields and all metadata fields, through all conversion layers",
  "Exchanged fields with similar values go unnoticed, and no stable test reads them back.",
  [PI,EC,"stempy/electronthresholds.cpp",IMG],[("toCpp, metadata copy, def_readonly/def_readwrite tables, _electron_counted_metadata_to_dict",PI)])
p("C19","Counted results hold exactly one entry per scan position, equally many frames",
  "The result of electron counting has exactly scan width times scan height positions, all holding the same number of frames (missing ones empty), computed only after every worker has finished; reported scan and frame dimensions are those used to build it.",
  ["histories","inputs"],"all mixes of complete/incomplete frames, multiple frames per position and missing positions",
  "No stable test produces counted data from files with missing or repeated frames.",
  [EC],[("events.resize, maxNumFrames padding after done",EC)])
p("C20","HDF5 object handles are closed exactly once with the matching call",
  "Every identifier the HDF5 layer opens or creates (file, group, dataset, dataspace, datatype, attribute, property list) is closed exactly once, by the close call for its kind, on every path including early error returns; error reporting switched off temporarily is switched on again on every path.",
  ["fault_sequences","programs"],"every function of the HDF5 layer and every exit path",
  "Leaks and unbalanced error handling only show after many operations or on failures.",
  [H5,"h5cpp/hidcloser.h"],[("HIDCloser, turnOffErrors/turnOnErrors",H5)])
p("C21","A failed HDF5 write is never reported as success",
  "When an HDF5 operation needed to export raw data (creating a dataset or group, writing an attribute or a frame) fails, the write function reports failure and the export call raises an error instead of completing normally.",
  ["fault_sequences"],"failure of any single HDF5 call during an export",
  "Tests never inject I/O failures.",
  [RC,H5],[("status checks in toHdf5*, bool results of H5ReadWrite",RC)])
p("C22","HDF5 type tables agree for every element type",
  "For each supported element type, the stored file type, the in-memory type, the enumeration value and the printed name used for reading, writing and attributes all denote the same C++ type (same kind, width and signedness), and every supported type appears in each table.",
  ["inputs","programs"],"all supported element types in all tables",
  "Tests cover at most uint16 data.",
  ["h5cpp/h5typemaps.h","h5cpp/h5readwrite.h",H5],[("BasicTypeToH5, H5ToDataType, DataTypeToH5DataType, DataTypeToH5MemType","h5cpp/h5typemaps.h")])
p("C23","What one part writes to HDF5 another reads back under the same names and axes",
  "The dataset, group and attribute names used when electron counted data, raw data and metadata are saved are those used when they are loaded, and each attribute is written from and restored to the same axis of the scan or frame shape, for all, also non-square, shapes and both the Python and the native writer; the stored format version is the one whose layout is written.",
  ["histories","inputs"],"all shapes and metadata; every write/read pair",
  "The stable tests do not write files; square test data hides exchanged axes.",
  [SA,IO,RC],[("write_to_hdf5/from_hdf5, save_raw_data/get_hdf5_reader, toHdf5*",SA)])
p("C24","Resetting or re-reading a reader starts again from a clean state",
  "After a reset, or when a full read is started again on the same reader, a reader delivers exactly the blocks a freshly opened reader would: every cursor, counter, cache and pending-task list that reading changes is re-initialised before it is used again.",
  ["histories"],"all sequences of reads, resets and full reads",
  "The stable tests use each reader once.",
  [RC,RH,"python/pyreader.cpp"],[("reset(), readAll(), initializeScanMap()",RC)])
p("C25","Every delivered block is marked valid; unknown formats are refused",
  "Every block delivered for existing data carries a non-zero format version, the scan and frame dimensions and one image number per contained image (for headers that state a scan position: its row times the scan width plus its column), while the end-of-data block is empty, so iteration never stops early. A reader given an unsupported version, back-end or an empty file list raises an error instead of guessing.",
  ["inputs","configurations"],"all reader kinds, versions, back-ends and header contents",
  "Tests open only supported combinations.",
  [RC,RH,"python/pyreader.cpp",IO],[("header.version assignments, version switches, read() sentinel",RC)])
p("C26","A flat pixel index is decoded with the frame's width everywhere",
  "Wherever a flat pixel or scan index is split into row and column or rebuilt from them in the Python code, row and column are obtained by division and remainder with the number of columns (the last axis of the shape), so results are right for non-square frames and scans.",
  ["inputs"],"all frame and scan shapes",
  "All test data is square in the frame axes.",
  [SA,IMG,IO],[("//, %, unravel_index, ravel_multi_index, _expand, bin_frames, com, virtual_darkfield",IMG)])
p("C27","Sparse array queries and copies never modify or alias the original",
  "Slicing, binning without in_place, reductions, expansions and image computations leave the input SparseArray's data, shapes and settings unchanged, and arrays they return can be modified in place without changing the original.",
  ["histories","inputs"],"all sequences of operations on an array and on arrays derived from it",
  "Tests look at results once and seldom at the original afterwards.",
  [SA,IMG],[("deepcopy in _slice_sparse, fresh result arrays in bin_*",SA)])
p("C28","Temporarily changed settings are restored on every path",
  "Operations that temporarily change an array's slicing or expansion settings restore the previous values on every path, including when the operation raises.",
  ["fault_sequences","histories"],"every exit path of such operations",
  "Tests do not raise inside these operations and inspect the settings afterwards.",
  [SA],[("try/finally in _default_full_expansion and to_dense",SA)])
p("C29","Derived arrays keep the settings of their source",
  "A SparseArray produced from another one by slicing or binning keeps its element type, slicing mode and full-expansion permission, and carries the shapes that describe its own data.",
  ["histories"],"every operation that builds a SparseArray from another",
  "Tests check shapes of few results, not settings over chains of operations.",
  [SA],[("kwargs of SparseArray(...) in bin_scans, bin_frames, _slice_sparse",SA)])
p("C30","In-place changes are seen by every later computation",
  "After an array is binned or reshaped in place, every later computation on it, including STEM imaging, uses the changed data and shapes; no result is computed from a cached copy of the earlier contents.",
  ["histories"],"all sequences of in-place operations and computations",
  "Tests never combine counting, in-place binning and imaging.",
  [SA,IMG],[("_electron_counted_data cache vs in_place updates",SA)])
p("C31","No electron is lost when repeated pixels occur",
  "Each stored sparse frame holds a pixel at most once: operations that can map several events of a frame to one pixel move the repeats into additional frames of the same scan position, and operations accumulating counts count every event of every frame of a position, in cells of at least 32 bits unless the user chose another type, so the total number of events is preserved by binning and format conversion.",
  ["inputs"],"all event lists, binning factors and old-format files",
  "Tests compare sums on a few samples.",
  [SA,CO],[("np.unique split loops in bin_frames and convert_data_v1_to_v2",SA)])
p("C32","A full expansion happens only when allowed",
  "Whenever expanding would produce the complete dense data set, the operation raises unless full expansion has been enabled for that array; only to_dense() enables it, and only for its own duration.",
  ["histories","inputs"],"all slicings and reductions on all arrays",
  "Tests try one or two slicings.",
  [SA],[("allow_full_expand test in _slice_dense",SA)])
p("C33","Reductions are defined for positions without events",
  "Sum, mean, min and max over scan or frame axes accept scan positions that contain no events and any supported numeric result type, yielding zero contributions rather than an error.",
  ["inputs"],"all data with empty frames or positions; integer and floating dtypes",
  "The test data has an event in every position.",
  [SA],[("min/max/sum specialisations",SA)])
p("C34","Every stored format version can be loaded; unknown ones are refused",
  "A file of any released electron-count format version older than the current one is converted to the current layout with every frame kept at its scan position, and any other version raises an error instead of being misread; a file written by the library is read back with the version and shapes it was written with.",
  ["configurations","inputs"],"all version numbers 1..current and beyond",
  "Tests need downloaded files; only one old version is sampled.",
  [CO,SA],[("func_map in convert_data_format, version test in from_hdf5",CO)])
p("C35","A scan file is only returned when it is the unique match",
  "Looking up a scan file returns a path only if exactly one file matches the pattern; several matches always raise, and no match raises after all applicable naming versions were tried.",
  ["inputs"],"all directory contents and argument combinations",
  "Tests cover a few directory layouts.",
  [CT],[("check_only_one_filepath before file_path[0]",CT)])
p("C36","Histogram of pixel samples for thresholds stays inside its bins",
  "Estimating thresholds never writes outside the histogram and never requests a negative number of bins, for any sample values, dark reference, gain and sigma settings.",
  ["inputs"],"all sample distributions and parameters",
  "Out-of-range bins need outlier samples far below the mean.",
  ["stempy/electronthresholds.cpp"],[("binIndex range test",  "stempy/electronthresholds.cpp")])
# not applicable
p("C37","Threshold estimation finds the right Gaussian fit",
  "The background and x-ray thresholds equal mean/sigma rules applied to a converged least-squares Gaussian fit of the sampled histogram.",
  ["inputs"],"all sample distributions","Depends on numerical convergence for all inputs.",
  ["stempy/electronthresholds.cpp"],[("Levenberg-Marquardt fit","stempy/electronthresholds.cpp")])
p("C38","Centre of mass and phase reconstruction are numerically right",
  "Centre of mass, its cropped variant and the integrated phase equal their mathematical definitions up to rounding for every input.",
  ["inputs"],"all sparse and dense inputs","Tests sample two parameter sets.",
  [IMG],[("com_sparse, com_dense, phase_from_com",IMG)])
p("C39","Multi-node counting equals single-node counting",
  "Counting distributed over any number of MPI ranks gathers the same events as a single process.",
  ["schedules","configurations"],"all rank counts","MPI is not built or tested here.",
  ["stempy/electron_mpi.cpp","stempy/reader_mpi.cpp"],[("gatherEvents, partitionScanMap","stempy/electron_mpi.cpp")])
p("C40","Counting terminates for every data set",
  "Electron counting finishes (with a result or an error) for every data set, also when fewer complete frames exist than were requested for threshold estimation.",
  ["inputs","schedules"],"all data sets and sample sizes","No stable test runs it.",
  [EC,RH],[("sampleCondition wait",EC)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
