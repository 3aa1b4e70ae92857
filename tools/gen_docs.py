#!/opt/veriftools/pyvenv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


PYF = ["src/gaussfft.cpp", "src/gaussfftinterface.cpp", "gaussianfft/__init__.py"]
SIM = PYF + ["src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/random/random.cpp", "src/nrlib/random/randomgenerator.cpp"]
TRUST = ("Trusted: TLC, the driver, and that the sampled behaviours are representative beyond the bounds stated in DESIGN.md; "
         "the model itself is explored exhaustively within small constants.")

prop("C01", "A seed and the simulations since it determine every later field",
     "After seed(s), the sequence of fields returned by later simulate calls (1D, 2D, 3D, plain or advanced, in any mix) is bit-for-bit determined by s and the sequence of simulate calls made since, in every process and in every repetition. "
     "Nothing done before seed(s), no other object, no refused call, no read-only call (seed(), corr, simulation_size, variogram, quote) and no other process or forked child has any influence. "
     "Re-seeding with the same value always replays the same fields from the start. Calls made by several threads of a process act as if made one after another in some order.",
     ["histories", "inputs", "schedules"], "all interleavings of seeding, simulating, querying, refused calls and forks, for all seeds and simulate arguments",
     "The tests seed once and compare two consecutive runs of one call; hidden state surviving a re-seed, or influence of earlier calls, needs particular histories.",
     SIM, [("process-wide generator re-initialised by seed", "src/nrlib/random/random.cpp"), ("per-field generator seeded from one draw", "src/nrlib/variogram/gaussianfield.cpp")],
     ["bytes of the returned arrays"], "TLA+ session model (TLC), behaviours replayed and recorded traces validated", TRUST,
     [("stream", "seed and draws made since", "src/nrlib/random/random.hpp")])
prop("C02", "Every simulation gets fresh noise and only simulations advance the stream",
     "Between two seedings no two simulate calls are built from the same random numbers: repeating a call gives a different field. "
     "Each 1D or 2D simulation advances the process's random stream by exactly one 32-bit draw, each 3D simulation by exactly one standard normal per cell of the padded grid, and no other call advances it at all. "
     "Different seeds (modulo 2^32) give different fields, and the stream position depends on nothing else about the calls.",
     ["histories", "inputs", "schedules"], "all sequences of simulations of mixed dimension interleaved with all other calls, from any number of threads",
     "The tests never interleave dimensions or look at what a call leaves behind in the stream.",
     SIM, [("one DrawUint32 per 1D/2D field, Norm01 per padded 3D cell", "src/nrlib/variogram/gaussianfield.cpp")],
     ["bytes of the returned arrays"], "TLA+ session model with symbolic stream positions; replay and trace validation", TRUST)
prop("C03", "seed() always reports the seed the current fields come from",
     "seed() raises until the process has a seed, and then returns exactly the value last given to seed(s) (any 64-bit unsigned value), no matter how many simulations, refused calls or forks happened since. "
     "A process that simulates unseeded takes its seed from the clock in whole seconds, once; from then on seed() reports it, and giving the reported value to seed(s) in any process reproduces that process's fields. "
     "Refused calls never set or change the seed.",
     ["histories", "inputs", "schedules"], "all histories of seeding, unseeded simulation at any clock value, queries, refusals and forks",
     "The tests check one explicit seed; clock seeding depends on the time of day and on process history.",
     SIM, [("start seed kept beside the generator", "src/nrlib/random/random.cpp"), ("lazy clock seed", "src/gaussfft.cpp")],
     ["value or exception of seed()", "bytes of later fields"], "TLA+ session model with a clock; replay and trace validation under a controlled clock", TRUST)
prop("C04", "Shape, order and meaning of a simulate call do not depend on how it is written",
     "simulate returns a fresh, writable, one-dimensional float64 array of nx (1D), nx*ny (2D) or nx*ny*nz (3D) finite values in Fortran order (x fastest), never sharing memory with another result. "
     "ny <= 1 or a negative dy makes the field 1D, otherwise nz <= 1 or a negative dz makes it 2D; arguments of absent axes have no effect. "
     "Positional, keyword and defaulted arguments, the advanced entry point with default settings, explicit padding equal to the automatic one (or leading to the same transform size), any negative padding, and smoothing values of 1 or more all give the bit-identical field.",
     ["inputs", "histories"], "all argument records and all ways of writing them, after any history",
     "The tests compare a few shapes; equivalence of call forms and aliasing across calls is never examined.",
     SIM, [("dimension dispatch", "src/gaussfft.cpp"), ("keyword bindings", "src/gaussfftinterface.cpp")],
     ["the returned array"], "TLA+ normal form of calls; replay with layout oracle, trace validation over families of equivalent calls", TRUST)
prop("C05", "simulation_size follows the padding rule",
     "For positive steps and ranges, simulation_size(v, nx, dx[, ny, dy[, nz, dz]]) returns one entry per dimension (1D if ny <= 1, 2D if nz <= 1): n + max(trunc(ratio*range/step - n), trunc(range/step)) + 1 with negative terms counted as 0, where ratio depends only on the variogram type (and power), the first axis of 2D and 3D grids uses the larger of main and perpendicular range, the second axis uses the perpendicular range when the azimuth is 0 and the first axis's range otherwise, and the third uses the depth range. "
     "The result depends on nothing else: not on units (scaling all lengths together), seeds or earlier calls.",
     ["inputs"], "all variograms, grid sizes, steps and length units",
     "The tests check a handful of sizes for a few variogram types.",
     PYF + ["src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/variogram/variogramtypes.hpp"], [("padding rule", "src/nrlib/variogram/gaussianfield.cpp")],
     ["simulation_size result"], "TLA+ integer padding model; every case decided by TLC and compared with the package",
     "Exact integer model; the real code is compared on an exhaustive small family and thousands of seeded cases. Quotients that are exact integers admit the two values rounding can give.")
prop("C06", "Transform lengths are the smallest 7-smooth number that is large enough",
     "For every request n >= 2 below 2^31 the transform length chosen is the smallest m >= n whose prime factors are all in {2,3,5,7}; when an even length is required, the smallest such even m. "
     "2D and 3D transform grids apply this to each axis of (cells + padding), requiring an even length on the first axis only, and report sizes consistent with it. A request of 1 stays 1.",
     ["inputs"], "every request, including those beyond 2^24 where floats lose integers",
     "No test calls it with large requests or checks minimality.",
     ["src/nrlib/fft/fft.cpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp"], [("search over exponents", "src/nrlib/fft/fft.cpp")],
     ["length returned", "grid sizes"], "TLA+ definition tabulated by TLC, compared with the C++ code for every request of the table",
     "Exhaustive for requests up to the tier's bound, then around every (thorough) or sampled (quick) 7-smooth number below 2^31.")
prop("C07", "A field is the seeded noise filtered by the variogram's spectrum",
     "Every simulated field equals the first nx[,ny[,nz]] cells of the periodic convolution of standard normal noise (drawn from the seeded stream, last axis fastest over the padded grid) with the filter whose spectrum is the square root of the non-negative part of the transform of the wrap-around covariance grid, up to rounding (2e-5). "
     "So its covariance is the variogram's, with unit variance when the padding suffices; smoothing factors multiply the covariance by s^((lag/axis range)^2) per axis and change nothing else.",
     ["inputs", "histories"], "all variograms, grids, paddings, smoothings, seeds and stream positions",
     "The tests compare a few fields with stored values or estimate variograms statistically with wide tolerances.",
     SIM + ["src/nrlib/variogram/fftcovgrid.cpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp", "src/nrlib/fft/fft.hpp", "src/nrlib/random/dSFMT.cpp"],
     [("circulant embedding", "src/nrlib/variogram/gaussianfield.cpp")],
     ["returned values"], "TLA+ session model supplies seed, stream position, padded sizes; independent numeric reading of the term compared with the real field",
     "The symbolic term comes from the TLA+ model; its numeric reading (own dSFMT, own correlation functions, numpy FFT) is independent of /repo. Tolerance 2e-5.")
prop("C08", "Variograms evaluate to the correlation their arguments describe",
     "corr (1D, 2D and 3D forms) equals the type's correlation function at the lag expressed in the rotated principal axes divided by the three ranges: 1 at lag zero, symmetric in the sign of the lag, equal across forms when the extra components are 0. "
     "Type names are case-insensitive, unknown names mean spherical, enum members equal their names; a perpendicular or depth range that is zero or negative means the main range; azimuth and dip are in degrees; power is used by general_exponential only. "
     "Covariance and variogram forms are sd^2*corr and sd^2*(1-corr), and point forms use the difference of the points.",
     ["inputs"], "all types, ranges, angles, powers and lags",
     "The tests compare a few values on axis-aligned variograms.",
     PYF + ["src/nrlib/variogram/variogram.cpp", "src/nrlib/variogram/variogram.hpp", "src/nrlib/variogram/variogramtypes.hpp"],
     [("quadratic form of the rotated anisotropy", "src/nrlib/variogram/variogram.cpp")],
     ["corr and its C++ siblings"], "TLA+ exact rational rotation and argument normalisation; every case decided by TLC, compared with Python and C++ values",
     "Rotations are exact rational points on the circle; the transcendental correlation functions are evaluated in double precision, tolerance 1e-9.")
prop("C09", "A variogram object is its parameters, whatever its history",
     "After any sequence of range, range-limit, angle, rotation and standard-deviation changes and clones, a variogram answers every query (ranges, angles, deviation, correlation, covariance) exactly like a new one built with the resulting parameters. "
     "Range setters refuse values <= 0 and a refused call changes nothing, setting three ranges at once is all-or-nothing; limiting a range lowers it only if it is above the limit. "
     "A clone is equal when made and independent afterwards.",
     ["histories"], "all sequences of mutators on two objects",
     "No test mutates a variogram after construction.",
     ["src/nrlib/variogram/variogram.cpp", "src/nrlib/variogram/variogram.hpp", "src/nrlib/variogram/variogramtypes.hpp"],
     [("derived factors recomputed after each change", "src/nrlib/variogram/variogram.cpp")],
     ["getters and covariance probes of the C++ class"], "TLA+ object state machine; exhaustive short and random long behaviours replayed into the C++ class", TRUST)
prop("C10", "Covariance grids hold the covariance at each cell's wrap-around lag",
     "Cell i of an axis of n cells carries the lag i if i < (n+1)/2 and i-n otherwise; every cell of a 1D, 2D or 3D covariance grid holds the variogram's covariance at that (signed) lag times the step, times the smoothing factor s^((lag/axis range)^2) of each axis with s below 1. "
     "Values do not depend on the length unit. The lookup-style 2D covariance grid returns the correlation for every pair of signed offsets inside its extent.",
     ["inputs"], "all grid sizes (odd, even, 1), steps, variograms and smoothing values",
     "No test looks inside covariance grids.",
     ["src/nrlib/variogram/fftcovgrid.cpp", "src/nrlib/variogram/fftcovgrid.hpp", "src/nrlib/variogram/covgrid2d.cpp"], [("quadrant loops", "src/nrlib/variogram/fftcovgrid.cpp")],
     ["grid values"], "TLA+ lag function checked by TLC; all small grids compared cell by cell with the C++ grids",
     "All axis lengths up to the bound; covariances evaluated independently, tolerance 1e-9.")
prop("C11", "Transform grids compute the Fourier transform and its inverse",
     "A forward transform of a 1D array or a 2D/3D grid gives the discrete Fourier transform with exponent -2*pi*i/n, stored for frequencies 0..n/2 of the first axis and all frequencies of the others; the inverse transform restores the data. "
     "With symmetric scaling both directions are divided by sqrt(cells), otherwise only the inverse by the number of cells. Reading back gives the unpadded part of the grid, with the same indices.",
     ["inputs"], "all sizes, paddings and data",
     "The tests exercise one or two sizes.",
     ["src/nrlib/fft/fft.hpp", "src/nrlib/fft/fft.cpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid2d.cpp", "src/nrlib/fft/fftgrid3d.hpp", "src/nrlib/fft/fftgrid3d.cpp"],
     [("layout and scaling around FFTW", "src/nrlib/fft/fftgrid2d.hpp")],
     ["spectrum and restored values"], "TLA+ exact Gaussian-integer DFT checked by TLC, compared with the C++ transforms",
     "Exact for axis lengths 1, 2, 4; other sizes against an independent FFT, tolerance 1e-11 relative.")
RN = ["src/nrlib/random/random.cpp", "src/nrlib/random/random.hpp", "src/nrlib/random/randomgenerator.cpp", "src/nrlib/random/randomgenerator.hpp", "src/nrlib/random/dSFMT.cpp", "src/nrlib/random/normal.cpp"]
prop("C12", "Random generators are independent, reproducible, and carried over by seed files",
     "The process-wide generator (Random) and every RandomGenerator object is a function of its seed (modulo 2^32) and the draws made from it: equal seeds and equal draws give equal numbers in either class, and no generator is influenced by creating, seeding, drawing from, copying the seed of or deleting another. "
     "GetStartSeed reports exactly the value given to Initialize (or the one obtained from the clock) until the next initialisation. "
     "Initialising Random from a seed file uses the number in it, or fails leaving the generator as it was when the file is missing or holds no number; WriteSeedToFile writes one new draw to the file last read successfully (nothing if none), so the next run continues with it.",
     ["histories", "inputs"], "all interleavings of creation, seeding, draws of all kinds, deletion, seed files written or damaged by others, at any clock value",
     "The tests draw a few numbers from one generator; cross-talk and the seed-file protocol need particular histories.",
     RN, [("dSFMT state held per generator", "src/nrlib/random/randomgenerator.cpp"), ("seed file protocol", "src/nrlib/random/random.cpp")],
     ["numbers drawn", "GetStartSeed", "content of the seed file"], "TLA+ state machine of generators and seed files (TLC), behaviours replayed",
     "Model explored exhaustively for small constants; thousands of simulated behaviours replayed against an independent dSFMT.")
prop("C13", "Empirical variograms average exactly the right pairs",
     "gaussianfft.util's estimators simulate exactly the grid and padding they were given, once per requested simulation, and for each reference point assign every cell to the one bin (of equal width at least the resolution, up to the farthest cell) that contains its distance; "
     "each estimate is 1 minus half the mean squared difference to the reference cell over the bin, averaged over reference points and simulations, with missing values only for empty bins. "
     "Reference point strategies return the documented cells (all, origo, center, every k-th, n distinct random ones fixed by the seed) and refuse unknown names. The second estimator groups cells of equal distance near the origin and on the coarser lattice, each exactly once.",
     ["inputs"], "all grids, steps, fields, resolutions and reference points",
     "The existing tests only check that a noisy estimate is near the theoretical variogram.",
     ["gaussianfft/util/empirical_variogram.py", "gaussianfft/util/empirical_variogram2.py"], [("binning", "gaussianfft/util/empirical_variogram.py")],
     ["estimator results", "arguments of the simulate calls made"], "TLA+ exact integer binning model; every case decided by TLC and compared with the package",
     "Fields are small integers supplied in place of simulate; distances compared exactly as squares. Cells exactly on an inner bin edge may go to either bin unless the edge is representable.")
IO = ["src/nrlib/iotools/fileio.cpp", "src/nrlib/iotools/fileio.hpp"]
prop("C14", "Binary numbers read back exactly as written, in the documented byte order",
     "WriteBinary<T> and WriteBinary<T>Array put the two's-complement or IEEE bytes of short, int, float and double values on the stream in the requested byte order, nothing else, and the matching reads return exactly the values written, whether written and read one at a time or in arrays and however they are interleaved; a read that runs past the end of the data is refused. "
     "IBM floats are written as the base-16 number nearest below in magnitude (truncated) and read back as the nearest float; every value representable in both formats round-trips. "
     "Holds for all normal floats; the Parse*/Write* buffer functions agree with the stream functions.",
     ["inputs", "histories"], "all values, byte orders, array lengths >= 1 and interleavings of reads and writes",
     "The tests round-trip a few hand-picked values.",
     IO, [("swab and IBM conversion", "src/nrlib/iotools/fileio.hpp")],
     ["bytes on the stream, values read"], "TLA+ byte-level codec (TLC), value tables and simulated read/write behaviours replayed",
     "Exact; every IEEE and IBM exponent with several mantissas plus random values. IBM conversion outside the IEEE normal range is excluded.")
prop("C15", "Text is read token by token and line by line without losing place or count",
     "ReadNextToken, ReadNext, ReadAsciiArray(Fast, FastRestOfFile), DiscardRestOfLine, GetNextNonEmptyLine, FindLastNonEmptyLine, SkipComments, CheckEndOfFile and ReadNextQuoted, in any order on any text (any blanks, line ends, missing final newline, empty quotes), return exactly the tokens, lines, numbers and quoted strings of the text in order, each once; "
     "they leave the stream right after what they consumed, keep the line counter equal to the number of lines passed, and report end of file or a token of the wrong type instead of inventing values. "
     "GetTokens, GetQuotedTokens, Substitute (every occurrence, any lengths), Uppercase, Chomp, IsType/ParseType and WriteAsciiArray do what their names say for every string.",
     ["inputs", "histories"], "all texts and all sequences of reading operations",
     "The repository has one unit test of string tools (file extensions) and none of the text readers.",
     IO + ["src/nrlib/iotools/stringtools.cpp", "src/nrlib/iotools/stringtools.hpp"], [("token reader and line counter", "src/nrlib/iotools/fileio.cpp")],
     ["values returned, stream position, line counter, exceptions"], "TLA+ model of a text stream (TLC), exhaustive short texts and simulated behaviours replayed",
     "Exact. The unchecked Fast variants are only judged on well-formed numbers; a quotation is assumed to be closed and followed by a blank.")
prop("C16", "Log messages reach exactly the streams whose levels match",
     "A message logged at a level and phase appears on a log stream if and only if that stream's level for the phase (or, when messages without phase are not ignored, its general level) includes the message's level; the wording, its level prefix and its order are kept and no stream gets a message twice. "
     "Messages logged while buffering are delivered, filtered in the same way, to each file or custom stream opened later until buffering ends; opening a second screen log replaces the first in place; GetNMessages counts messages per level whether or not anyone listens. "
     "Formatted messages of any length arrive whole, and ending the log or removing a stream loses nothing already written.",
     ["histories", "inputs"], "all interleavings of opening, removing and ending logs, buffering and messages of all levels, phases and lengths",
     "No test of the repository touches the log.",
     ["src/nrlib/iotools/logkit.cpp", "src/nrlib/iotools/logkit.hpp", "src/nrlib/iotools/logstream.cpp", "src/nrlib/iotools/logstream.hpp"],
     [("routing, buffer, counters", "src/nrlib/iotools/logkit.cpp"), ("per-stream levels", "src/nrlib/iotools/logstream.cpp")],
     ["text on every stream, file and standard output", "GetNMessages"], "TLA+ model of streams, buffer and counters (TLC), behaviours replayed",
     "Model explored exhaustively for small constants; simulated behaviours replayed comparing every stream's full text.")
prop("C17", "File operations do all or nothing, and handles read back what was written",
     "OpenRead, OpenWrite (truncating or appending, optionally creating directories), CopyFile, RemoveFile, FileExists, CreateDirIfNotExists and FindFileSize have exactly the documented effect on the file tree: a refused operation (missing source, existing target without permission, file in the place of a directory) raises and leaves every file as it was. "
     "A BigFile handle writes and reads exactly the bytes given, of any length, at the position it reports, seeks as asked from start, current position or end, and reports end of file only after a read past it. "
     "GetPath, RemovePath, GetStem, GetExtension, ReplaceExtension, AddExtension and PrependDir split and rebuild path names consistently for every name.",
     ["histories", "inputs"], "all sequences of file operations on small trees, all sequences of handle operations, all path names",
     "The tests open one big file and check one file extension.",
     IO + ["src/nrlib/iotools/bigfile.cpp", "src/nrlib/iotools/bigfile.hpp", "src/nrlib/iotools/stringtools.cpp"],
     [("file tree operations", "src/nrlib/iotools/fileio.cpp"), ("big file handle", "src/nrlib/iotools/bigfile.cpp")],
     ["content of every file of the tree, values returned, exceptions"], "TLA+ model of a file tree with open handles (TLC), behaviours replayed in a scratch directory",
     "Exact. Excluded: directories as source or target of CopyFile/RemoveFile, dot-files, two handles on a file being written.")
SG = ["src/nrlib/segy/segygeometry.cpp", "src/nrlib/segy/segygeometry.hpp"]
prop("C18", "Positions, line numbers and cell indexes of a SegY geometry agree",
     "For a SegY geometry built from the traces of a complete rectangular survey (in any trace order that starts in a corner, single lines too, any rotation, ascending or descending line numbers and steps), from grid parameters with or without line numbers, from a plain or rotated surface, by copying, or as a sub-geometry of some of its lines, every trace's inline/crossline, its position and its cell agree: FindXYFromILXL, FindILXL, FindIndex (both forms), FindXYFromIJ, FindContIndex and FindXYFromContIndex invert each other, each trace has a cell of its own and lies where the grid's origin, steps and rotation put it. "
     "Points and lines outside the grid are refused by the finding functions and answered false by the testing ones; first, last and step of the lines are those of the traces; findAreaILXL gives the smallest range of lines covering a rectangle.",
     ["inputs"], "all surveys (origin, rotation, size, numbering, trace order), all ways of building the geometry, all points and lines",
     "The tests convert some points of a handful of surveys.",
     SG, [("geometry from traces", "src/nrlib/segy/segygeometry.cpp"), ("index and position conversion", "src/nrlib/segy/segygeometry.cpp")],
     ["results and exceptions of the SegyGeometry functions"], "TLA+ model of the survey grid in exact integer arithmetic (TLC), cases replayed into SegyGeometry",
     "Rotations with rational sine and cosine, positions exact in the model; positions compared to 1e-6 of a cell. Excluded: first trace not in a corner, line numbers between the lines of the survey, points on a cell border.")
prop("C19", "A SegY file holds the traces written and is read back trace for trace",
     "Every trace given to the SegY writer (WriteTrace in its three forms, StoreTrace followed by WriteAllTracesToFile) becomes exactly one whole trace of the file, in order, with its inline, crossline, coordinates rounded to the unit of the scale factor, start time, sampling interval and samples at the places the header format says, samples above and below the data filled as asked; a refused trace leaves the file as it was; text lines set in the textual header are found there in EBCDIC. "
     "Reading a SegY file (sample formats 1, 2, 3 and 5, scale factors that may differ between traces) with GetNextTrace, with GetTraceData after FindAndSetGridGeometry, or with ReadAllTraces gives for every trace its lines, position, samples and loaded depth range; a trace missing in the survey is reported as missing and never given data; GetValue is the sample at the middle of a cell and between samples interpolates only between neighbours in the grid.",
     ["inputs", "histories"], "all sequences of writing and reading calls, header layouts, sample formats, surveys with holes, depth windows",
     "The tests write one file and read one.",
     ["src/nrlib/segy/segy.cpp", "src/nrlib/segy/segytrace.cpp", "src/nrlib/segy/traceheader.cpp", "src/nrlib/segy/commonheaders.cpp"],
     [("writer", "src/nrlib/segy/segy.cpp"), ("reader", "src/nrlib/segy/segy.cpp"), ("trace headers", "src/nrlib/segy/traceheader.cpp")],
     ["bytes of the file written", "results and exceptions of the SegY functions"], "TLA+ model of the SegY file, its writer and its readers (TLC), behaviours and files replayed into SegY",
     "Surveys of at most 5 x 5 traces of up to 9 samples; layouts with fields that do not overlap. Excluded: guessing the header layout, onlyVolume, bogus traces.")
SU = ["src/nrlib/surface/regularsurface.hpp", "src/nrlib/surface/regularsurfacerotated.hpp", "src/nrlib/surface/surface.hpp", "src/nrlib/surface/surfaceio.hpp", "src/nrlib/surface/surfaceio.cpp"]
prop("C20", "A surface keeps nodes, values and holes through every operation and file",
     "A regular surface, plain or rotated, single or double precision, has after every sequence of operations (assignment of nodes, missing nodes, change of missing code, adding, subtracting, multiplying by numbers and fill; combination with another or a constant surface; neighbour averages; moving, resizing, turning, copying, swapping, rotating, naming) exactly the nodes, positions, values, missing nodes, extent, and smallest, largest and mean value that follow from them: arithmetic leaves missing nodes missing, combination with a surface without value in a node makes the node missing. "
     "GetZ is the node's value in a node and between nodes the bilinear mean of the corners that have values, GetZInside the same where all four have; inside tests, cells, nearest nodes and enclosed rectangles follow the extent; a resampled rotated surface has in each node the value of the surface there. "
     "A surface written to an IRAP or Storm file is read back with the same nodes, values and missing nodes in both precisions, a rotated file is refused by the plain surface; the kind of any file is found without failing, and NORSAR Sgri files are read with the values, missing code, angle and place they state or refused.",
     ["histories", "inputs"], "all sequences of surface operations and file exchanges, all positions, all Sgri headers",
     "The repository has no test of surfaces.",
     SU, [("nodes and interpolation", SU[0]), ("rotated surfaces", SU[1]), ("files", SU[3])],
     ["results of the surface functions", "exceptions"], "TLA+ model of surfaces with rational values (TLC), behaviours and files replayed into RegularSurface and RegularSurfaceRotated",
     "Up to 5 x 5 nodes, rational rotations. Values to 1e-6 (2e-4 in single precision), positions to 2e-5. Excluded: surfaces with a single row or column, steps of Sgri files read as one surface (the two readers disagree), positions on cell borders of rotated surfaces.")
GE = ["src/nrlib/geometry/%s.cpp" % x for x in ("line", "plane", "triangle", "box", "polygon", "transformation", "interpolation", "point")]
prop("C21", "Points, lines, planes, triangles, boxes and polygons: exact geometry",
     "For all points, lines (segments, rays, infinite), planes, triangles, boxes (rotated too) and simple polygons: distances between point and line, line and line, point and plane, line and triangle, point and box, and the closest points and projections reported with them, are those of Euclidean geometry; intersections (line with line seen from above, plane, triangle, box; plane with plane) are found exactly when they exist and lie where the figures meet, a line meeting a box in at most two different points; the side of a line or plane, angles, parallelism and overlap agree. "
     "A polygon's orientation, convexity, extent, circumference, distances along it, inside test, tangent points and smallest enclosing rectangle are right, and MakeConvex only takes points away, none from a convex polygon, until it is convex. A Transformation applies its steps one after the other. Interpolate1D is the piecewise linear function or the natural cubic spline through the points given.",
     ["inputs"], "all configurations of the figures and all sequences of transformation steps",
     "The tests cover two dozen lines and three curves.",
     GE, [("lines", GE[0]), ("planes", GE[1]), ("triangles", GE[2]), ("boxes", GE[3]), ("polygons", GE[4])],
     ["results of the geometry functions"], "TLA+ geometry in exact rational arithmetic (TLC checks its theorems), rows of cases replayed into the geometry classes",
     "Figures with small integer coordinates and rational rotations; results to 1e-6. Excluded: lines that touch an end, edge or corner exactly (rounding decides whether they meet), segments of length zero against lines, Line::IsParallel with its default tolerance of zero, BilinearSurface, splines through two points.")
prop("C22", "Grids of two to five dimensions keep every cell where its indices say",
     "Grid2D, Grid, Grid4D, Grid5D and Grid2DGeneral have after every sequence of constructions, Resize, ResizeK, Assign, assignments to cells (by indices, by position, SetValue), copies and swaps exactly the sizes, index ranges and cell values that follow from them, by whatever way a cell is reached: indices, position, GetValue, iterators, storage. "
     "GetIndex and GetIJ, GetIJK, GetIJKL, GetIJKLM are inverse one-to-one maps between index tuples and positions with the first index running fastest; IsValidIndex holds exactly for the cells. Resize and Assign set every cell to the value given, ResizeK keeps the layers that remain. FindMin, FindMax, GetAvgMinMax and GetAvgMinMaxWithMissing summarise exactly the cells that are not missing; LogTransform takes logarithms and gives 0 for missing and non-positive cells.",
     ["histories", "inputs"], "all sequences of grid operations, all sizes including zero",
     "The repository has no test of the grid classes as such.",
     ["src/nrlib/grid/%s.hpp" % x for x in ("grid2d", "grid", "grid4d", "grid5d", "grid2dgeneral")], [("two dimensions", "src/nrlib/grid/grid2d.hpp"), ("three dimensions", "src/nrlib/grid/grid.hpp"), ("four dimensions", "src/nrlib/grid/grid4d.hpp")],
     ["cells, sizes and summaries"], "TLA+ model of a pair of grids (TLC, exhaustive on small ones), behaviours replayed into the grid classes",
     "Sizes up to 5 per dimension; double, float and int. FindMin and FindMax with no cell that is not missing are left open.")
prop("C23", "Kriging honours the data and gives the simple kriging estimate elsewhere",
     "Kriging of a one-dimensional field, of a grid with data at nodes and of a surface with data anywhere gives in every node the trend plus the simple kriging estimate from the differences between data and trend: the solution of the kriging system for the covariance given. A node with a datum (the mean when several data fall in one node) gets its value, a node out of reach of all data keeps the trend, missing data have no effect, and without data nothing changes. "
     "Asked for residuals, Krig2D gives the estimate without the trend. Kriging in blocks gives the same in every node whose influencing data are within the neighbourhood asked for, wherever the blocks divide the grid and however the data cluster.",
     ["inputs"], "all grids, trends, data configurations, covariances and divisions into blocks",
     "The tests compare one configuration each with stored results; blocks of other shapes, several data in a node, missing data, residuals and nodes far from data are never seen.",
     ["src/nrlib/statistics/%s.cpp" % x for x in ("kriging", "krigingdata2d", "nodalkrigingdata2d", "continuouskrigingdata2d")] + ["src/nrlib/random/covgrid2d.cpp"],
     [("grids and surfaces", "src/nrlib/statistics/kriging.cpp"), ("data at nodes", "src/nrlib/statistics/nodalkrigingdata2d.cpp"), ("data anywhere", "src/nrlib/statistics/continuouskrigingdata2d.cpp")],
     ["estimates at every node"], "TLA+ definition of simple kriging in exact rational arithmetic, tables checked with TLC, real kriging compared node by node",
     "Exact estimates for up to four data with a piecewise bilinear covariance on grids up to 34 nodes; up to 230 data with spherical and exponential covariances at data nodes and out of reach. More data than nodes, coinciding data of a surface and data outside it are left open.")
prop("C24", "Volumes and Storm grids locate, interpolate, store and return their cells",
     "A volume between a top and a bottom surface, turned by any angle, holds exactly the points within its area and between its surfaces (within the tolerance given); its corners, its centre, its largest height and its extent in z follow from its surfaces; surfaces that do not cover it are refused. A Storm grid that fills it finds for every point inside the one cell that holds it, and refuses points outside; the centre of every cell lies in that cell; interpolation in z uses the two cells whose centres are nearest and never leaves the grid. "
     "Written as ASCII or binary and read back (either byte order), a continuous or facies grid is the same grid: position, size, angle, surfaces, erosion, cells, missing value, labels, facies and bodies; a truncated file is refused. Copies are independent of their originals.",
     ["histories", "inputs"], "all volumes, grids, points and sequences of changes, writes and reads",
     "No test makes a Volume or a Storm grid of either kind.",
     ["src/nrlib/volume/volume.cpp", "src/nrlib/stormgrid/stormcontgrid.cpp", "src/nrlib/stormgrid/stormfaciesgrid.cpp"],
     [("volume", "src/nrlib/volume/volume.cpp"), ("continuous grids", "src/nrlib/stormgrid/stormcontgrid.cpp"), ("facies grids", "src/nrlib/stormgrid/stormfaciesgrid.cpp")],
     ["cells, values and volumes returned", "files"], "TLA+ state machine of volumes and grids in exact arithmetic, checked with TLC along generated histories that are replayed in the real classes",
     "Surfaces are planes or constants; surfaces that just touch the edge of the volume and crossing surfaces are left open, as is a grid after a refused operation; values in ASCII files agree to four digits; Sgri files with constant surfaces only.")
#MORE

NA = []


def design():
    ns = {}
    exec(open(os.path.join(HERE, "tools", "design_notes.py")).read(), ns)
    t = open(os.path.join(HERE, "tools", "design.in")).read()
    t = t.replace("@@PROPS", "\n\n".join("### %s %s\n%s" % (p["id"], p["title"], ns["D"][p["id"]]) for p in P))
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, "?")))
    t = t.replace("@@BUGS", "\n".join(rows))
    for k in ("MODULES", "FINDINGS", "FALSE"):
        t = t.replace("@@" + k + "\n", ns.get(k, ""))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             checks=[dict(property=p["id"], quick_cmd="./check.py %s quick" % p["id"], thorough_cmd="./check.py %s thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"])
                     for p in P],
             not_applicable=NA,
             notes="TLA+ with TLC; no hooks in /repo (fix: commits only). See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
