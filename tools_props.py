#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it is easy to review)."""
import json
import pathlib

C = 'src/pyinterp/core/include/pyinterp/'
M = 'src/pyinterp/core/module/'
L = 'src/pyinterp/core/lib/'
PY = 'src/pyinterp/'
P = []


def prop(pid, title, statement, over, text, why, files, mech):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('P01', 'Axis lookup returns the nearest node',
     'For any monotonic axis (float, integer or temporal; regular or irregular; ascending or descending; linear, angular or a full circle), looking up a coordinate returns the index of a node at minimal distance, the distance being measured round the circle when the axis is one. A coordinate outside a non-circular axis (beyond half a cell of a regular axis, beyond the end nodes of an irregular one) gives -1, or the index of the nearest end when a bounded search is asked for; not a number has no index. Values that are not strictly monotonic are refused.',
     ['inputs', 'configurations'],
     'every axis of distinct finite node values, every finite coordinate, both values of bounded',
     'the C++ tests look at a handful of coordinates of 0..359-like axes; direction, spacing, type and wrap combine multiplicatively',
     [C + 'detail/axis.hpp', C + 'detail/axis/container.hpp', C + 'axis.hpp', C + 'temporal_axis.hpp', M + 'axis.cpp'],
     [('Axis::find_nearest_index', C + 'detail/axis.hpp'), ('Regular/Irregular::find_index', C + 'detail/axis/container.hpp')])
prop('P02', 'Bracketing indexes and index windows frame the coordinate',
     'For any axis, the pair of indexes returned for a coordinate designates two neighbouring nodes enclosing it (lower value first; for a full circle the last and first nodes enclose what lies between them), and (-1, -1) exactly when the coordinate is outside. On an ascending axis, a window of half-size k extends that pair by k-1 consecutive nodes on each side, going round a circle and otherwise repeating the end node, wrapping, mirroring, or giving an empty window according to the boundary mode.',
     ['inputs', 'configurations'],
     'every axis, every coordinate, every window half-size (larger than the axis too), the four boundary modes',
     'tests pin a few windows of one 360-node axis; off-by-one errors show only for particular positions, sizes and modes',
     [C + 'detail/axis.hpp', C + 'axis.hpp', M + 'axis.cpp'],
     [('Axis::find_indexes (pair and window)', C + 'detail/axis.hpp')])
prop('P03', 'Axes keep their meaning through flip, copy, slice and pickle',
     'After any sequence of constructions, in-place or copying flips, copies and pickle round trips, every axis object reports exactly the values, ends, direction, regularity, circularity and lookups of the sequence of nodes it stands for. Flipping only reverses the order, twice is the identity, a copy never shares state with its original, slices agree with the values, and two axes are equal exactly when they have the same nodes and circularity.',
     ['histories', 'inputs'],
     'every history of axis operations over several objects, for each axis type',
     'tests exercise each operation once; forgetting part of the state shows only after a particular combination (e.g. pickle, then a wrapped lookup)',
     [C + 'axis.hpp', C + 'temporal_axis.hpp', C + 'detail/axis.hpp', C + 'detail/axis/container.hpp', M + 'axis.cpp'],
     [('getstate/setstate', C + 'axis.hpp'), ('flip, operator==, normalize_longitude', C + 'detail/axis.hpp')])
prop('P04', 'Calendar fields of datetime64 values are exact',
     'For any datetime64 value from year 1 to 9999 with a resolution from seconds to attoseconds, the reported date, time, native datetime, weekday, ISO calendar week and time elapsed since January 1st are those of the proleptic Gregorian calendar, before as well as after 1970, and the text form of a date is its ISO 8601 form at any resolution from years to attoseconds. Other types and coarser resolutions are refused. Conversion of dates to the resolution of a temporal axis keeps the instant (rounding towards the past, with a warning, when the resolution gets coarser) and refuses time deltas on an axis of dates and conversely.',
     ['inputs'],
     'every representable instant and resolution',
     'tests compare a few random dates; leap years, ISO week years, negative timestamps and sub-second boundaries are isolated points',
     [C + 'dateutils.hpp', M + 'dateutils.cpp', C + 'temporal_axis.hpp'],
     [('date, time, isocalendar, weekday, timedelta_since_january', C + 'dateutils.hpp'), ('safe_cast', C + 'temporal_axis.hpp')])
prop('P05', 'Periods and period lists implement interval algebra',
     'A period is the set of time steps from its beginning to its last (inclusive) element, and a sorted list of disjoint periods is the union of its members: contains, before/after, adjacency, intersection, merge, membership of dates, closeness, joining of adjacent periods, restriction and filtering by duration return what that set semantics dictates. Operations on lists keep them sorted and disjoint, and apply the same way through the Python layer whatever the resolution of the dates.',
     ['inputs', 'histories'],
     'every period and every sorted disjoint list of periods, every sequence of list operations',
     'tests use hand-written intervals; boundary contacts, empty lists, gaps of exactly the tolerance and dates between periods are sampled rarely',
     [C + 'period.hpp', M + 'period.cpp', PY + 'period.py'],
     [('Period', C + 'period.hpp'), ('PeriodList', C + 'period.hpp'), ('Python facade', PY + 'period.py')])
prop('P06', 'Two-dimensional interpolation obeys its definition at every point',
     'For any 2D grid and any position inside it, bilinear interpolation returns the bilinear combination of the four surrounding nodes, nearest the value of the nearest node, inverse distance weighting the mean of the surrounding nodes weighted by the inverse of a power of the great-circle distance (the node itself on nodes); positions between the last and first node of a circular axis are treated like any other cell. Outside the grid the result is undefined (NaN), or an error when bounds errors are requested; an undefined surrounding node gives an undefined result; flipping an axis together with its values changes nothing.',
     ['inputs', 'configurations'],
     'every grid (either direction, regular or not, circular or not) and every position, every interpolator',
     'tests compare against stored values at interior positions of one ascending global grid',
     [C + 'bivariate.hpp', C + 'detail/math/bivariate.hpp', C + 'grid.hpp', C + 'detail/axis.hpp', M + 'bivariate.cpp', PY + 'interpolator/bivariate.py'],
     [('bivariate()', C + 'bivariate.hpp'), ('Bilinear, Nearest, InverseDistanceWeighting', C + 'detail/math/bivariate.hpp')])
prop('P07', 'Three and four-dimensional interpolation factors through the 2D one',
     'Interpolation in a 3D (4D) grid at a position inside it equals the 2D interpolation in the two enclosing levels of the third (third and fourth) coordinate combined linearly along that coordinate, or taken from the nearest level, whatever the type of that coordinate (float or temporal of any resolution) and the direction of the axes. It is exact on nodes, undefined (or an error on request) outside any axis, and treats circular axes as in two dimensions.',
     ['inputs', 'configurations'],
     'every grid, position, interpolator and method of the extra dimensions',
     'the tests run one grid with ascending axes and check that known numbers come out',
     [C + 'trivariate.hpp', C + 'quadrivariate.hpp', C + 'detail/math/trivariate.hpp', C + 'detail/math/linear.hpp', M + 'trivariate.cpp', M + 'quadrivariate.cpp', PY + 'interpolator/trivariate.py', PY + 'interpolator/quadrivariate.py'],
     [('trivariate()', C + 'trivariate.hpp'), ('quadrivariate()', C + 'quadrivariate.hpp'), ('z_method', C + 'detail/math/trivariate.hpp')])
prop('P08', 'Windowed (bicubic, spline) interpolation is exact and local',
     'Bicubic and spline interpolation of a grid returns the node value at nodes, reproduces data that vary linearly (bilinearly) in the coordinates, and depends only on the values of the index window around the position: changing any value outside this window, the order in which points are given, or the number of threads never changes a result. Beyond the edges of the axes, the boundary mode chooses the nodes whose values are used, and the coordinates of the window continue those of the axis. Outside the grid, or when the window cannot be built with the boundary mode or holds an undefined value, the result is undefined (or an error when requested).',
     ['inputs', 'configurations', 'histories'],
     'every grid with enough nodes, window size, kernel, boundary mode and position; every order of evaluation',
     'tests compare one grid with stored numbers; dependence on stale internal buffers needs particular sequences of points',
     [C + 'frame.hpp', C + 'detail/math/spline2d.hpp', C + 'detail/math/bicubic.hpp', C + 'detail/interpolation/', M + 'bicubic.cpp', PY + 'interpolator/bicubic.py'],
     [('bicubic()', M + 'bicubic.cpp'), ('frames', C + 'frame.hpp')])
prop('P09', 'One-dimensional interpolation passes through its data',
     'For any strictly increasing abscissae and finite ordinates, each 1D method (linear, polynomial, cubic spline, Akima, Steffen and periodic variants) returns the ordinate at every abscissa, is continuous, reproduces linear data (polynomials for the polynomial method), and is a function of its arguments only: an evaluation never depends on what was evaluated before. Over a moving window, the value is that of the method over the points of its window. Linear and Steffen interpolation stay within the two neighbouring ordinates, cubic splines are smooth and periodic variants close on themselves; positions outside the axis are undefined or an error on request, and too few points for a method are an error.',
     ['inputs', 'histories'],
     'every data set of sufficient size, every position, every sequence of evaluations on the same object',
     'tests evaluate one data set per method away from the nodes, always with a fresh object',
     [C + 'interpolate1d.hpp', C + 'detail/interpolation/', M + 'interpolate1d.cpp'],
     [('interpolate1d', C + 'interpolate1d.hpp'), ('Linear, Polynomial, CSpline, Akima, Steffen', C + 'detail/interpolation/')])
prop('P10', 'Results never depend on the number of threads',
     'Whatever the number of threads requested and whatever the schedule, a parallel computation processes every element exactly once, returns the same result as with one thread (bit for bit where elements are independent), and reports an error raised for any element to the caller as an ordinary exception, without terminating the process. Asking for more threads than elements, or for an empty input, is harmless.',
     ['schedules', 'configurations', 'fault_sequences'],
     'every number of elements and threads, every interleaving of workers, every set of failing elements',
     'tests run one or two thread counts on inputs that do not fail; races and lost exceptions depend on the schedule',
     [C + 'detail/thread.hpp', C + 'bivariate.hpp', C + 'trivariate.hpp', C + 'quadrivariate.hpp', C + 'fill.hpp', C + 'rtree.hpp', C + 'geodetic/coordinates.hpp', L + 'geohash/string.cpp', M + 'bicubic.cpp', M + 'geodetic.cpp'],
     [('detail::dispatch', C + 'detail/thread.hpp')])
prop('P11', 'Gap filling changes only undefined cells, consistently',
     'Filling undefined cells (LOESS, Gauss-Seidel relaxation, along the rows and columns of a matrix, along a vector) never changes a defined cell, except where LOESS is asked to smooth defined ones. LOESS gives the tri-cube weighted mean of the defined cells of the window, relaxation a grid whose filled cells are, on convergence, the mean of their neighbours (mirrored at the edges, wrapped on circles), and rows, columns and vectors the line through the surrounding defined points, continued beyond the ends with the mean slope; inside, filled values are within the range of the defined data that contribute. The result does not depend on the number of threads, constant data give that constant, periodic grids commute with rotation along the periodic axis, the filled grid is not modified, and one without any gap is returned unchanged.',
     ['inputs', 'configurations', 'schedules'],
     'every grid shape, mask, option and number of threads',
     'tests check means of a single global grid after filling',
     [C + 'fill.hpp', M + 'fill.cpp', PY + 'fill.py'],
     [('loess, gauss_seidel, matrix, vector', C + 'fill.hpp')])
prop('P12', 'Descriptive statistics are independent of how data are supplied',
     'Count, sum of weights, sum, mean, variance, standard deviation, skewness, kurtosis, minimum and maximum (weighted or not, over any subset of axes) are those of the defined (not NaN) elements of the data set; the extrema and sum of weighted data are those of the products of values and weights. They do not depend on the memory layout, nor on how the data were split in parts whose statistics are added together, in any order and grouping, including empty parts, copies and pickled parts.',
     ['inputs', 'histories'],
     'every data set, weight, axis subset and every tree of merges of its parts',
     'tests merge two non-empty halves of one random sample',
     [C + 'descriptive_statistics.hpp', C + 'detail/math/descriptive_statistics.hpp', M + 'descriptive_statistics.cpp', PY + 'statistics/descriptive_descriptive.py'],
     [('DescriptiveStatistics', C + 'descriptive_statistics.hpp'), ('Accumulators::operator+=', C + 'detail/math/descriptive_statistics.hpp')])
prop('P13', 'A streaming histogram conserves what was pushed',
     'After any sequence of pushes, merges, resizes and pickle round trips, a streaming histogram holds at most its maximum number of bins, sorted by value, whose weights add up to the weight of everything pushed, with exact count, minimum, maximum and (to rounding) mean. While no more distinct values than bins have been pushed, the bins, grouped by value, are exactly those values with their weights; beyond, the two closest neighbours are replaced by their weighted mean. Quantiles are monotonic, within the minimum and maximum, and interpolate the cumulated weights of the bins; a quantile outside [0, 1] is refused.',
     ['histories', 'inputs'],
     'every sequence of push, merge, resize and pickle over several histograms, in Python and per axis',
     'tests push random samples and check statistics to a few percent',
     [C + 'streaming_histogram.hpp', C + 'detail/math/streaming_histogram.hpp', M + 'streaming_histogram.cpp', PY + 'statistics/streaming_histogram.py'],
     [('StreamingHistogram::operator(), trim, operator+=', C + 'detail/math/streaming_histogram.hpp')])
prop('P14', 'Binned statistics are those of the samples falling in each bin',
     'In one and two dimensions, simple binning assigns every sample with a defined value to the nearest bin, and each bin reports the count, sum, mean, variance, minimum and maximum of its own samples (weighted where weights are given); a one-dimensional binning ignores the samples outside its range. Linear binning distributes each sample over the enclosing bins, also between the two ends of a circle, with weights proportional to the (cartesian or geographic) areas of the opposite rectangles, and ignores samples outside the grid. Pushing in several calls, merging binnings built on parts of the data, clearing and pickling behave as if all the data had been pushed at once.',
     ['histories', 'inputs'],
     'every sample set, axis pair (circular or not) and every history of push, merge, clear and pickle',
     'tests push one fixed data set in one call',
     [C + 'binning.hpp', M + 'binning.cpp', C + 'detail/math/binning.hpp', PY + 'binning.py'],
     [('Binning2D::push/operator+=', C + 'binning.hpp'), ('Binning1D::push', C + 'binning.hpp')])
prop('P15', '2D histograms count every sample once in its cell',
     'A 2D histogram assigns every sample with a defined value to the nearest cell and never to another: counts, means and extrema per cell are those of the samples of the cell, in whatever order, number of calls or merges they were supplied, and are kept by copies and pickling and lost by clearing; the maximum number of bins is kept too. Binnings over different axes are never merged.',
     ['histories', 'inputs'],
     'every sample set and every history of push, merge, clear and pickle',
     'tests push one random data set in one call and compare global figures',
     [C + 'histogram2d.hpp', M + 'histogram2d.cpp', PY + 'histogram2d.py', C + 'detail/math/streaming_histogram.hpp'],
     [('Histogram2D::push/operator+=', C + 'histogram2d.hpp')])
prop('P16', 'Spatial index queries agree with exhaustive search',
     'Whatever the sequence of bulk loading, insertions, clears and pickle round trips, the spatial index holds exactly the points given since the last (re)load with their values, and a query for k neighbours returns min(k, size) stored points none of which is farther than a point left out, with its exact distance and value, nearest first. Radius, within and boundary-box options only restrict this set as documented, and the reported bounds enclose exactly the stored points.',
     ['histories', 'inputs'],
     'every sequence of operations, every point set (duplicates and signs included), every query, number of neighbours and threads',
     'tests query a few points of one packed tree',
     [C + 'rtree.hpp', C + 'detail/geometry/rtree.hpp', C + 'detail/geodetic/', M + 'rtree.cpp', PY + 'rtree.py', L + 'geodetic/rtree.cpp', C + 'geodetic/rtree.hpp'],
     [('RTree::query', C + 'detail/geometry/rtree.hpp'), ('packing, insert, pickling, bounds', C + 'rtree.hpp')])
prop('P17', 'Scattered-data interpolation is exact on samples and bounded by them',
     'The k nearest neighbours within the radius are used, and their number is reported. Inverse distance weighting returns the value of the sample at the position of a sample (one neighbour), otherwise the mean weighted by the inverse powers of the distances; window functions return the mean weighted by the documented window: both stay within the range of the samples used (windows which are never negative). Radial basis functions (without smoothing) and kriging solve the linear system of the documented kernel: they reproduce the samples, are linear in the values, and do not depend on the order of the points, on the origin of the coordinates, nor on the points which are not used. Where no neighbour exists, or the position is not framed by them when this is required, the result is undefined with zero neighbours. A request on the Earth is that of the Cartesian coordinates; unknown functions and arguments are refused.',
     ['inputs', 'configurations'],
     'every point set, target, radius, number of neighbours, kernel, and option',
     'tests compare one smooth field with stored numbers',
     [C + 'rtree.hpp', C + 'detail/math/window_functions.hpp', C + 'detail/math/radial_basis_functions.hpp', C + 'detail/math/kriging.hpp', M + 'rtree.cpp', PY + 'rtree.py'],
     [('inverse_distance_weighting, radial_basis_function, window_function, universal_kriging', C + 'rtree.hpp')])
prop('P18', 'A geohash denotes the one cell containing its points',
     'At every precision, encoding a position gives the code of the cell containing it, decoding gives a point of that cell, the box of a code has the width and height of the precision, a code truncated to fewer characters denotes an enclosing cell, and the eight neighbours of a code are the adjacent cells, going round the date line; beyond a pole the neighbour is the cell that is there, on the other side of the Earth, in the same row. The integer and text forms, scalar and array functions agree, and an invalid character or precision is refused.',
     ['inputs'],
     'every position (edges and poles included), every precision from 1 to 12 characters and 1 to 64 bits',
     'tests check a dozen codes; neighbour and edge cases at the date line and the poles are isolated points',
     [C + 'geohash/int64.hpp', C + 'geohash/string.hpp', C + 'geohash/base32.hpp', L + 'geohash/int64.cpp', L + 'geohash/string.cpp', L + 'geohash/base32.cpp', M + 'geohash.cpp', M + 'geohash/int64.cpp', M + 'geohash/string.cpp'],
     [('encode/decode/bounding_box/neighbors', L + 'geohash/int64.cpp')])
prop('P19', 'Geohash covers, zooms and groupings lose and invent nothing',
     'The codes returned for a box or a polygon are exactly the cells meeting it, each once (a cell that only touches the maximum edge of a box is left out); zooming in gives all and only the sub-cells of a code and zooming out its ancestor; grouping a table of codes gives, for each code it holds, the smallest ranges of rows and columns holding all its occurrences; gridding values puts each in the cell of its code.',
     ['inputs', 'configurations'],
     'every box, polygon, precision pair and code array, every number of threads',
     'tests check one box and one polygon',
     [C + 'geohash/int64.hpp', C + 'geohash/string.hpp', L + 'geohash/string.cpp', L + 'geohash/int64.cpp', M + 'geohash/string.cpp', PY + 'geohash/'],
     [('bounding_boxes, bounding_boxes_zoom, transform, where', L + 'geohash/string.cpp')])
prop('P20', 'Geodetic geometry is consistent with itself',
     'Conversions between geographic and Earth-centred coordinates are inverse of each other and independent of the number of threads; distances are symmetric, null only between equal points; a point is covered by a box or polygon exactly when it lies inside or on its edge, as array and scalar functions, unions and text forms agree; the crossing of two tracks lies on both, is found whichever track comes first, and is absent when they do not meet.',
     ['inputs', 'configurations'],
     'every coordinate, box, simple polygon and pair of tracks',
     'tests check a few published coordinates',
     [C + 'geodetic/', L + 'geodetic/', C + 'detail/geodetic/', M + 'geodetic.cpp', PY + 'geodetic/__init__.py'],
     [('Coordinates::transform', C + 'geodetic/coordinates.hpp'), ('Box/Polygon covered_by', L + 'geodetic/'), ('Crossover', L + 'geodetic/crossover.cpp')])
prop('P21', 'Orbit passes partition the cycle',
     'Encoding a cycle and pass number and decoding it again gives them back, numbering being consecutive over cycles; every time of a cycle belongs to exactly one pass, consistently with the date of the pass; times and positions of a pass advance monotonically, and a swath has its across-track points at the requested spacing, symmetric about nadir.',
     ['inputs', 'configurations'],
     'every orbit ephemeris, cycle, pass number and time',
     'tests propagate one ephemeris and compare a few numbers',
     [PY + 'orbit.py', C + 'geodetic/swath.hpp', C + 'detail/geodetic/'],
     [('Orbit', PY + 'orbit.py'), ('calculate_swath', C + 'geodetic/swath.hpp')])
prop('P22', 'Grids pair every value with its axes, whatever the layout',
     'A grid accepts exactly arrays whose shape matches its axes, keeps every value attached to its coordinates for any memory layout, order of axes or direction (values are re-ordered together with an axis made increasing, and dimensions of an xarray object are taken by name), and survives copying and pickling unchanged; the Python dispatch selects the implementation by the types of data and axes and refuses mismatches.',
     ['inputs', 'configurations', 'histories'],
     'every shape, dtype, memory layout, axis direction and pickle/increasing-axes history',
     'tests build a few contiguous arrays',
     [C + 'grid.hpp', M + 'grid.cpp', PY + 'grid.py', PY + 'interface.py', PY + 'backends/xarray.py'],
     [('Grid2D/3D/4D', C + 'grid.hpp'), ('increasing_axes', PY + 'grid.py')])

if __name__ == '__main__':
    here = pathlib.Path(__file__).resolve().parent
    with open(here / 'properties.jsonl', 'w') as stream:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            stream.write(json.dumps(p, ensure_ascii=False) + '\n')
