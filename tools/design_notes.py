"""Per property: how the specification decides it (goes into DESIGN.md)."""
D = {}
D["C01"] = """*Specified*: `Session` gives each field a symbolic term (seed, simulations since, call in normal form). TLC checks `Reproducible`, `SameHistorySameStream`, `ReadOnly`, `Isolated` exhaustively for 2 processes, 2 seeds, 3 calls, 5 (6) operations.
*Bound to code*: simulated behaviours (several processes, forks, refused calls, read-only calls, every argument style) are replayed, equal terms must give equal bytes across all processes of the run; sessions chosen by the driver (random, "same simulations after different prehistories", "same simulation right after a call that differs in one argument") are validated by `SessionTrace`. Runs with 2-4 threads calling the package concurrently are recorded with invocation and response times, and `SessionLin` searches for an order of atomic session steps that explains all results (linearizability; also run by C02).
*Reaches beyond tests*: caches, statics and state surviving a re-seed show only in particular histories. *Cost*: ~25 s quick, minutes thorough."""
D["C02"] = """*Specified*: a stream position is a sequence of segments (`uint` draws, `norm` draws); 1D/2D simulations add one uint, 3D ones as many normals as the padded grid has cells, everything else nothing; `MovesOn`, `FreshNoise`.
*Bound*: replay and trace validation with a memo table position→bytes and its inverse: equal positions reached by different routes (other variograms, other dimensions, 3D grids of equal total cut differently, with any read-only or refused calls between) must give equal bytes, positions that are certainly different must differ."""
D["C03"] = """*Specified*: seed tokens (`set` value, `auto` clock second), `SeedStable`. *Bound*: replay and traces under a preloaded clock (`clockshim.c`), seeds up to 2^64-1, forks, refused calls; clock seeds learnt through seed() are replayed in other processes."""
D["C04"] = """*Specified*: the normal form of a call (dimension dispatch, ignored arguments, padding → transform size, smoothing saturation). *Bound*: replay with a layout oracle (any permutation or reversal of axes is recognised), families of calls written differently validated by `SessionTrace` (equal normal forms ⇒ equal bytes), earlier results re-read after later calls and after overwriting one of them, results from 5 to 200000 values."""
D["C05"] = """*Specified*: `Padding` in exact integer arithmetic (ratios in thousandths). TLC decides each case; an exhaustive family of small ranges/steps/sizes and random cases over all types, units and call forms are compared with `simulation_size`."""
D["C06"] = """*Specified*: `FftSize` defines smoothness and the smallest sufficient length and TLC builds the table; every request up to the bound (10^5 quick) and the neighbourhood of 7-smooth numbers up to 2^31 are compared with `FindNewSizeWithPadding` and both grid classes' sizes."""
D["C07"] = """*Specified*: the term of a field (seed, stream position, padded sizes, normal-form variogram) comes from `Session` behaviours; `lib/ref.py` reads it numerically with its own dSFMT, normals, correlation functions and numpy's FFT. About 2000 fields per quick run, worst difference 1.3e-7, tolerance 2e-5."""
D["C08"] = """*Specified*: `Variograms` (names, defaults) and `Rotation` (exact rational rotations from Pythagorean angles): TLC produces the squared scaled lag as an exact fraction; Python corr and the C++ GetCorr/GetCov/GetVariogram/point forms must equal the correlation function of it (1e-9)."""
D["C09"] = """*Specified*: `VarioObj` state machine of two objects with every mutator, refusals, clone, drop. Breadth-first enumeration of all short behaviours and random long ones, replayed; after every step all observable quantities are compared with a newly built object of the specified parameters and with the numbers."""
D["C10"] = """*Specified*: `CovGrid!Lag` with its theorems; lag tables for all axis lengths up to the bound from TLC; every cell of every grid (1D/2D/3D, odd/even/1) compared."""
D["C11"] = """*Specified*: `Dft` over Gaussian integers, exact for axis lengths 1, 2, 4 with inverse/Parseval/symmetry theorems checked; exact spectra compared with the C++ 1D/2D/3D transforms; other sizes against numpy. The convolution and padding theorems are checked by TLC and the convolution, padding and single precision grids compared too."""

D["C12"] = """*Specified*: `Rng`: generator slots (slot 0 the process-wide one) as (seed token, draws since), files, clock; TLC checks `FailSafe`, `OneAtATime`, `DrawsAreSilent`, `BoundWasRead` exhaustively for small constants. *Bound*: simulated behaviours replayed under a controlled clock with files damaged from outside; draws compared with an independent dSFMT and normal generator."""
D["C13"] = """*Specified*: `EmpVario`: binning by exact comparison of squared integer distances, sums and counts per bin, reference point sets, groups of the second estimator; TLC checks that bins partition the cells and computes each case. *Bound*: the package's estimators run on integer fields handed to them in place of `simulate` and must agree to 1e-9."""
D["C14"] = """*Specified*: `Codec`: numbers as byte sequences, both byte orders, IBM encoding and decoding in integer arithmetic, a stream as buffer and read position. *Bound*: tables (every exponent) and simulated behaviours replayed on string and file streams. Excluded from the property: arrays of length 0 and IBM conversion of values outside the IEEE normal range (denormals, NaN, infinities, IBM numbers beyond the range of float), where the code has no defined answer."""

D["C15"] = """*Specified*: `TextIn`: a stream is a text, a position, a good flag and the caller's line counter; each reading operation is a transition; `Inside`, `Forward`, `TokThm` (tokens are exactly the non-blank characters). `TextTab`: string functions. *Bound*: all texts up to length 3 over small alphabets with every operation, all pairs of operations on random texts, random longer sequences, replayed on string and file streams comparing value, exception, line counter and stream position after every operation."""
D["C16"] = """*Specified*: `LogKit`: streams (screen, file, custom) with a level set per phase and a general level, the buffer, counters, one transition per API call; invariants: a message is on a stream iff it matches, order is kept, counters equal the messages logged. *Bound*: simulated behaviours replayed; the text of every stream, file and of standard output is compared after each behaviour."""
D["C17"] = """*Specified*: `Files`: a tree of files and directories and two handles with mode, position, end-of-file; every operation with its refusals; `AllOrNothing`. `PathTab`: path functions on all short names. *Bound*: behaviours replayed in a scratch directory, the whole tree compared after every step; large reads and writes (over 1 MiB) through BigFile. Excluded: directories given to CopyFile/RemoveFile, dot-files, two handles on a file being written (buffering decides)."""
D["C18"] = """*Specified*: `SegyGeom`: a survey is an origin, two step vectors with a rational rotation, line numbers and a trace order; positions, cells and line numbers of every trace and of probe points inside and outside are exact integers; theorems (cell and line conversions are inverse, one trace per cell) asserted by TLC for every case. *Bound*: 1500 surveys per quick run built through every constructor, copies and sub-geometries; about 65000 queries compared."""
D["C19"] = """*Specified*: `SegyFile`: a writer that appends traces (with explicit header, at a position with line numbers, at a position of the geometry, or stored and flushed later) and a reader that walks the file; invariants (only whole traces, one cell per trace, traces come back in order) and action properties (the file only grows, a refused call and a reading call leave it alone) by exhaustive checking of a small survey. `SegyRead`: a survey with missing traces, what is loaded between two depths, the interpolated value, every line and position query; theorems asserted per case. *Bound*: about 480 behaviours per quick run replayed in all header layouts, every byte of the file compared with the model and read back; 700 files in formats 1, 2, 3 and 5 with arbitrary other header bytes encoded from the model and read through the three reading modes. The stack is filled with a pattern before each call, so that unset values that reach the file are seen. Excluded: finding the header layout by guessing, volumes that do not cover the survey (onlyVolume), bogus traces."""
D["C20"] = """*Specified*: `Surfaces`: two surfaces and two files; nodes with rational values or missing, rational rotations; one transition per operation, with the bilinear rule over the corners that have values, combination through the other surface's interpolated value, neighbour averages, IRAP and Storm files that hold everything but the missing code. TLC checks exhaustively on 2 x 2 nodes that interpolation stays between its corners and equals the node in a node, that extremes and extent bound everything, and that a file keeps values and missing nodes. `SurfFiles`: the kind of a file and the surfaces of a Sgri header. *Bound*: about 400 behaviours of 20 operations per quick run replayed in single and double precision under the address sanitizer, the whole surface (every node, position, summary) compared after every operation; resampled surfaces compared with the surface they come from. *Left out*: ReadSgriSurf and ReadMultipleSgriSurf give different steps for the same header (nx*dx and (nx-1)*dx as length); which is meant cannot be told from the code."""
D["C21"] = """*Specified*: `Geometry`: squared distances, feet of perpendiculars, intersections, sides and inside tests of integer figures as rational numbers, rotations with rational sine and cosine, natural splines solved exactly. TLC asserts theorems on every case: distances are symmetric and never larger than those of the end points, the foot of a perpendicular is as far away as the distance says, crossing is symmetric, the inside test does not depend on the axis, curves pass through their knots. *Bound*: about 1 500 figures per quick run (random, with axis-parallel, coplanar and degenerate ones favoured), each put to every function of its class; results to 1e-6, answers that rounding decides (exact touching) are left open but must be one of the two. Polygons after MakeConvex go back to TLC, which judges whether they are a convex remainder."""
D["C22"] = """*Specified*: `Grids`: two grids as an index box and a sequence of values; TLC checks exhaustively for grids of at most 2 x 2 x 2 cells that positions and index tuples are one to one, that stretching keeps cells and that the sequence always has the size of the box. *Bound*: about 400 behaviours of 20 operations over the five classes in three number types; after every operation both grids are compared completely, through every accessor."""
D["C23"] = """*Specified*: `Kriging`: data reduced to places and means, the kriging system with the covariance (a - |dx|)+ (b - |dy|)+ whose values are integers, its solution by cofactors, the estimate in every node as a rational number; which data can influence a node at all (the connected component of the covariance graph), and whether kriging in blocks must see them. TLC checks for every case that the data are honoured, the system is regular, nodes out of reach keep the trend and that data outside the component change nothing. *Bound*: about 900 cases (1-D, nodal, indexed and continuous data; all data or blocks; residuals or not) and 40 with many data; every node is compared with the table within 2e-4. The covariance is a `Variogram` subclass in the harness, so the kriging code sees its public interface only."""
D["C24"] = """*Specified*: `Storm`: two grids or volumes as records (origin, size, Pythagorean angle, planes with the box in which they are known, erosion, cells), every operation of the public interface as a transition, and what it shows: cells of points given in eighths of cells, centres, interpolation between layers, corners, heights, files as the grid they store. `StormTrace` runs generated histories through it; TLC checks in each state that the centre of every cell is found in that cell, that layers divide the height evenly, that a file holds what was written, and that interpolated values lie between the values they come from. *Replayed* in the real classes (address sanitizer) one operation at a time, every observation compared. *Bound*: 280 histories of about 20 operations, 3000 thorough; grids up to 5x5x5, eleven angles, origins as far away as UTM coordinates."""
FINDINGS = """* `b8c6c01` Substitute removed as many characters as the replacement has, and never ended when the replacement contains the text replaced (C15).
* `25b67ff` ParseAsciiArrayFast started over at the beginning of a string that holds too few numbers (C15; used by the point set, table and Eclipse readers).
* `cf7d713` ReadNextQuoted misread empty quotes and missed a newline after the opening quote (C15).
* `b64659a` GetQuotedTokens misplaced a quotation at the start of the string, and did not end on an unclosed one (C15).
* `212b09c` SkipComments at end of file looked at an unset character and cleared the end-of-file state (C15).
* `8681cb5` ReadAsciiArrayFast refused an array whose last number ends the file (C15).
* `a561dc6` LogFormatted overran a buffer of 2000 characters (C16).
* `1e486cf` PrependDir changed absolute and empty paths, contrary to its documentation (C17).
* `ab69357` CopyFile with overwriting deleted the target when the source is missing or is the same file (C17).
* `46f69c1` a survey of a single crossline with descending inlines was taken to be ascending (C18).
* `d97563b` FindIndex(IL, XL) accepted the line just outside the grid and returned an index beyond the last cell or, below the first line, of a wrong cell (C18).
* `05efe12` FindILXL rounded negative line numbers upwards (C18).
* `8859f91` geometries made without line numbers numbered cells from 0 in one direction of conversion and from 1 in the other (C18).
* `99ead5a` the text header of a new SegY file was garbage: its EBCDIC literals had been damaged by a change of source encoding (the literals oldHeader and standardHeader remain damaged, their text cannot be recovered) (C19).
* `feadf3e` ascii2ebcdic looked past its table for characters above 127 (C19).
* `823cc34` coordinates were cut, not rounded, when written to a trace header: positions one unit off (C19).
* `fcecea4` sampling intervals were divided as integers: files with 0.5 or 2.5 ms were read with a wrong interval or refused (C19).
* `42883bf` a trace with scale factor 0 or 1 was scaled by the factor of the trace before it (C19).
* `b3fa5d0` SegY::GetValue interpolated with the neighbour from the other end of the grid at row ends (C19).
* `6e7da4e` GetTraceData of a missing trace returned the start of the text header as data (C19).
* `58b48b9` GetTraceData refused whole traces, or skipped samples, of files with a negative start time (C19).
* `61fd6f5` the sampling interval written was cut: 4.06 ms became 4.059 (C19).
* `96e74d3` traces in SIP format were written with an unset offset (C19).
* `ef2026c` copying a SegYTrace made without header crashed (C19).
* `671172b` a single precision surface could not be written to or read from a Storm file: 8 bytes were copied into each 4 byte value (C20).
* `9d2c932` SetAngle of a rotated surface left its extent (inside tests, enclosed rectangles) at the old angle (C20).
* `a9ddd1a` ResampleSurface took the value of another position than its node's (C20).
* `9d29800` the name of a Sgri binary file was read past its end when nothing follows it on the line (C20).
* `9a95c74` ReadMultipleSgriSurf never compared axis labels, contrary to its documentation (C20).
* `e81606c` FindSurfaceFileType threw on a file that starts with two words or numbers with decimals (C20).
* `095e154` the binary file of a Sgri header in the current directory was looked for in the root directory (C20).
* `4f682ab` Box::FindIntersections gave a point on an edge or in a corner once per side, up to six, and aborted (C21).
* `d419ec7` the circumference of a polygon left out an edge (C21).
* `e48578b` IsCounterclockwise left out the closing edge: wrong orientation, IsConvex and MakeConvex for polygons not around the origin (C21).
* `e6b3f4d` GetAngle was NaN for parallel vectors whose normalised product rounds above 1 (C21).
* `231f12c` FindDistanceAndSide gave the wrong side for points beyond the second point of a line (C21).
* `ccfc71c` FindNearestPoint of a triangle looked at its edges only: wrong for a segment that ends above its interior (C21).
* `2b5a6f1` Grid4D::GetIJKL gave a third index beyond the grid and a wrong fourth (C22).
* `61560c6` Grid5D could not be compiled; GetIJKLM used an unset value (C22).
* `562f789` Grid2DGeneral::Swap left the index ranges behind (C22).
* `a880d27` one-dimensional kriging without observations stopped the program (C23).
* `eec5a8e` residuals were not zero in blocks without data, but left as they were (C23).
* `3d80ccd` the last block of a kriged grid extends to the end of the grid but used data only near its nominal size (C23).
* `b02bd43` GetValueClosestInZ extrapolated past the nearest cells and read before the first (C24).
* `44d5a98` a point on the bottom of a Storm grid was in a layer beyond the last (C24).
* `e5d3c20` Storm files kept six digits of the position of the grid (C24).
* `6c9a5de` the centre of a rotated volume was computed without the rotation (C24).
* `2f0e7d5` StormFaciesGrid::FindIndex put points beside the grid in its first cells (C24).
* `fddfb1b` the consistency check of a facies grid accepted the body number after the last (C24).
* `6c257ef` Sgri grids in the current folder were looked for in the root folder (C24).
* `04d778f` a file name at the end of a line of an Sgri header was read beyond its end (C24).
* `886897d` interpolation at the centre of a single layer read outside the grid (C24).
* `63d32b8` a Storm grid whose bottom or erosion surface cannot be read freed the surface twice (C24).
* `1f3c49f` giving a volume one of its own surfaces used the surface after freeing it (C24).
"""
MODULES = """| SessionLin | linearizability of calls made by several threads |
| Rng, RngGen | generators, seed files, clock |
| EmpVario, EmpVarioGen | empirical variogram estimators in integer arithmetic |
| Codec, CodecGen, CodecTab | binary numbers, byte orders, IBM floats, streams |
| TextIn, TextInGen, TextTab | text streams, string functions |
| LogKit, LogKitGen | log streams, levels, buffer |
| Files, FilesGen, PathTab | file tree, handles, path names |
| Survey, SegyGeom | survey grids, line numbers, positions |
| SegyFile, SegyFileGen, SegyRead | SegY files written and read |
| Rat, Surfaces, SurfacesGen, SurfFiles | rational numbers; surfaces, their operations and files |
| Geometry, GeometryTab | figures, polygons, transformations, interpolation |
| Grids, GridsGen | grids of two to five dimensions |
| Kriging, KrigingTab | simple kriging in exact arithmetic |
| Storm, StormTrace | volumes and Storm grids |
"""
