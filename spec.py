"""The properties: written once, here; `python3 spec.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []
SYMX = "symbolic execution of the real functions with SMT (z3), bounded; counterexamples replayed on the real code"
NOTE = ("Bounded symbolic checking: every value of the stated inputs within the bounds in the evidence, real arithmetic for floats "
        "(rounding at ties is excluded by margins), one path per feasible branch, each sampled path replayed on the unpatched code. ")


def P(id, title, statement, over, quantifier, why, files, mechanism, note="", observe=None, state=None, na=None):
    f = ["src/glimpse/%s.py" % x for x in files]
    mech = []
    for m in mechanism:
        name, where = m if isinstance(m, tuple) else (m, None)
        mech.append({"name": name, "where": where or f[0]})
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": why,
         "anchors": {"files": f, "mechanism": mech}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": f[0]} for a, b in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    PROPS.append((d, note, na))


# ---- Camera ----

P("C01", "Projection and unprojection of points are exact and inverse",
  "Without lens distortion, the image coordinates and depth of any world point or ray are those of the pinhole model for the camera's position, yaw-pitch-roll rotation, focal length and principal point (with the elevation correction for earth curvature and refraction when requested), and any point not in front of the camera has undefined image coordinates. "
  "Unprojecting any image coordinates to any depths (one for all or one per point, as positions or as directions) and projecting the result returns the same image coordinates and depths. "
  "The rotation is orthonormal with the stated angle conventions, its derivatives are the true derivatives, and neither operation changes its inputs or the camera.",
  ["inputs", "configurations"], "every camera pose, internal parameters, point and depth",
  "The tests project a handful of random points once through a fixed camera and only check the round trip; they cannot cover every angle, point behind or beside the camera, mode and depth vector, or tell a consistent error in both directions.",
  ["camera"], ["Camera.R", "Camera.Rprime", "Camera.xyz_to_uv", "Camera.uv_to_xyz", "Camera.infront", "Camera._xyz_to_xy", "Camera._xy_to_xyz", ("elevation_corrections", "src/glimpse/helpers.py")])

P("C02", "Lens distortion follows the Brown-Conrady model and is inverted",
  "For any radial and tangential coefficients, projected image coordinates are those of the Brown-Conrady model. "
  "With only the first radial coefficient, for every image coordinate (including those on the axes through the principal point) that the lens can produce, unprojecting gives the ray nearest the optical axis which distorts to that coordinate. "
  "The principal point maps to the optical axis and back whatever the coefficients, and so do points that the lens leaves in place to their own directions.",
  ["inputs", "configurations"], "every set of coefficients and every point in the stated range",
  "Tests use a few fixed coefficient sets and grids of points, none of them on an axis of the image.",
  ["camera"], ["Camera._distort", "Camera._undistort", "Camera._undistort_k1", "Camera._undistort_oulu"],
  note="The iterative inversions for other coefficients are decided only at points which the lens leaves in place (the principal point, and circles on which radial and tangential terms cancel): their iterates elsewhere are outside the claim. ")

P("C03", "Camera state follows its history of changes",
  "After any sequence of resizing, resetting, idealizing, setting, in-place editing and copying, every camera parameter is what those operations say: pixel quantities scale with image size relative to the original size, resetting restores the state at construction, physical quantities do not change with image size, and copies never share state. "
  "Building a camera from its exported attributes or file gives the same camera, and incomplete, contradictory, non-integer or wrong-aspect definitions are refused without changing anything. "
  "Arguments passed by the caller are never modified.",
  ["histories", "inputs"], "every sequence of operations within the bound and every parameter value",
  "Tests try a few one-step changes; the state is a shared vector with views of it, a saved copy and a reference image size, so errors appear only in particular sequences.",
  ["camera"], ["Camera.__init__", "Camera.resize", "Camera.reset", "Camera.idealize", "Camera.copy", "Camera.to_dict", "Camera.from_json", ("format_list", "src/glimpse/helpers.py")],
  state=[("vector", "all parameters, with views for each"), ("original vector", "the state to which reset returns")])

P("C04", "The image frame: grids, edges, viewsheds, rasterization, angles",
  "Points are in the frame exactly when within or on it; the grid of points holds every point of the aligned lattice in the frame in row order and edge points go once around it; the bounding box and polygon of the viewshed at any depth tightly hold the camera and the unprojected frame. "
  "Rasterizing points gives each pixel the mean of the points in it (points on the right and bottom edges included) and leaves other pixels undefined. "
  "Converting azimuth, altitude and distance to world coordinates follows the compass convention and is inverted by the opposite conversion.",
  ["inputs", "configurations"], "every point, pose, lattice step and offset in the stated ranges",
  "Tests check single examples of each; boundaries of pixels and frames, non-square steps and offsets are not tried.",
  ["camera", "helpers"], ["Camera.inframe", "Camera.grid", "Camera.edges", "Camera.viewbox", "Camera.viewpoly", "Camera.rasterize", "Camera.spherical_to_xyz", "Camera.xyz_to_spherical", ("rasterize_points", "src/glimpse/helpers.py")])

# ---- Helpers ----

P("H01", "Lines of sight meet boxes where geometry says",
  "For any ray or segment and any box in two or three dimensions, the points of entry and exit are those of exact geometry whether the start is outside, inside or on the boundary and whether or not the line is parallel to a side, and misses are reported as undefined. "
  "A polyline leaves a box at the first point from which its next part is outside.",
  ["inputs"], "every origin, direction and box in the bounds",
  "Tests use a few hand-picked rays; parallel, boundary and grazing cases and combinations of them are not covered.",
  ["helpers"], ["intersect_rays_box", "intersect_edge_box", "polyline helpers"])

P("H02", "Boxes: membership, intersection, bounds, outline and lattice",
  "For any boxes and points: a point is in a box exactly when within or on every bound; the intersection of boxes holds exactly the points of all of them and is refused when they share none; the bounding box of points is the smallest that holds them; the outline polygon is closed with the box as area. "
  "The lattice generated in a box holds every point aligned to the snap point (or the box minimum) at the given step within the box, and no other, in row order in every output format.",
  ["inputs"], "every box, point, step and offset in the bounds",
  "Tests cover one or two boxes in one format.",
  ["helpers"], ["in_box", "intersect_boxes", "bounding_box", "box_to_polygon", "box_to_grid", "unravel_box", "pairwise_distance"])

P("H03", "Interpolation along lines is exact",
  "For any line of vertices with increasing or decreasing measures (or Euclidean distance when none are given), interpolated points lie on the line at exactly the requested measures, or evenly spaced for a requested number or spacing, ends included. "
  "Measures beyond the ends are refused, or replaced by the endpoints or by the given values, the first for those before the first vertex and the second for those after the last.",
  ["inputs", "configurations"], "every line, measure and mode in the bounds",
  "The tests interpolate a single line with increasing measures.",
  ["helpers"], ["interpolate_line"])

P("H04", "Splitting arrays by a mask loses and invents nothing",
  "For any array and mask, splitting at the changes of the mask gives runs of equal mask value that concatenate to the original (rotated when circular joins the last run to the first), with runs selected by mask value when requested. "
  "The input is unchanged.",
  ["inputs", "configurations"], "every mask up to the bound, every mode",
  "Tests use one mask; runs at the ends, uniform masks and circular joins interact.",
  ["helpers"], ["boolean_split"])

P("H05", "Cell traces of lines and circles are connected and exact",
  "For any two cells, the traced line starts and ends at them, steps to an adjacent cell each time along its longer axis and never strays more than half a cell from the true line. "
  "For any center and radius, the traced circle is closed, connected, symmetric and within a cell of the true circle, without dropped cells.",
  ["inputs"], "every pair of cells and every radius in the bounds",
  "Tests and examples list one line and one circle of radius 1.",
  ["helpers"], ["bresenham_line", "bresenham_circle"])

P("H06", "Array statistics: normalization, distributions, masked filters",
  "For any array, normalizing gives mean 0 and variance 1 with order preserved; the cumulative distribution holds each unique value with the share at or below it; matching maps each element to the target value at its own share, preserving order, and an array matched to itself is unchanged. "
  "Masked filters never let excluded cells influence the result, renormalize by the included weight, and keep excluded cells unless filling is requested.",
  ["inputs", "configurations"], "every array and mask in the bounds, ties included",
  "Tests use one array for each without ties or with a single mask.",
  ["helpers"], ["normalize", "compute_cdf", "match_cdf", "gaussian_filter", "maximum_filter"],
  note="The linear filter kernel is taken as its matrix of impulse responses computed by the real library on each run. ")

P("H07", "Datetime sequences and selections are complete and exact",
  "A range of datetimes holds every multiple of the step from start up to and including stop. "
  "Selecting datetimes keeps exactly those within the start and end (both included) and, with a snap interval, exactly those nearest to each target of the interval's grid within the allowed distance. "
  "Distances between datetimes do not depend on the computer's local time.",
  ["inputs", "configurations"], "every sequence of datetimes at microsecond resolution within the bounds",
  "Tests select from one regular sequence; offsets, ties, gaps and local time changes are not tried.",
  ["helpers"], ["datetime_range", "select_datetimes", "pairwise_distance_datetimes"])

P("H08", "List and value helpers preserve what they are given",
  "Formatting a list to a length truncates, repeats or pads it as documented, refuses lengths that do not fit, converts its elements, and never modifies its argument. "
  "The nearest neighbor in a sorted list is the nearest for every query, including queries beyond the ends, lists of one value and repeated values.",
  ["inputs"], "every list in the bounds",
  "Tests and examples use one list for each.",
  ["helpers"], ["format_list", "sorted_nearest"])


# ---- Rasters ----

P("R01", "Grid coordinates, limits, cell size and indices describe one grid",
  "For any size, limits (in either direction) or vectors or matrices of cell centers, a grid's limits, cell size, centers, bounds and coordinate matrices agree, and world coordinates convert to image coordinates, array indices and flat indices and back without loss. "
  "The array indices of a point are those of the cell that holds it, whatever small rounding errors the arithmetic makes.",
  ["inputs", "configurations"], "every grid position and cell size in either direction, every point, within the size bounds",
  "Tests use a few integer grids, for which truncation and rounding agree and directions are all the same.",
  ["raster"], ["Grid._parse_limits", "Grid._parse_xy", "Grid.d", "Grid.x", "Grid.X", "Grid.xyz_to_uv", "Grid.uv_to_xyz", "Grid.idx_to_rowcol", "Grid.rowcol_to_xy", "Grid.xy_to_rowcol", "Grid.rowcol_to_idx"])

P("R02", "Grids and rasters follow their history without stale or shared state",
  "After any sequence of shifting, setting limits, resizing, cropping, filling, copying, subsetting and sampling, a grid or raster has the position, cell size, values, coordinate reference system and time those operations say, and sampling it always reflects its current values and position rather than anything cached. "
  "Copies and subsets never change with (or change) what they were made from, and arrays passed by the caller are not modified.",
  ["histories", "inputs"], "every sequence of operations within the bound from every raster position and values",
  "Coordinates, limits, interpolants and matrices are cached on first use, so errors appear only when a read comes before a change; tests change fresh objects.",
  ["raster"], ["Grid.xlim", "Grid.ylim", "Grid.size", "Grid.shift", "Grid.resize", "Grid.copy", "Raster.crop", "Raster.shift", "Raster.fill_circle", "Raster.crop_to_data", "Raster._clear_cache"],
  state=[("_x, _y, _X, _Y, interpolants", "cached on first use, to be cleared by each change")])

P("R03", "Crops, subsets, tiles and file windows select exactly the right cells",
  "Cropping keeps exactly the cells that the limits intersect (or refuses limits beyond the raster, leaving it as it was), values beyond z limits become missing, and indexing selects what numpy selects at the right coordinates. "
  "Tiles partition the grid, or overlap within it as asked; the data extent is the smallest window with all values; a window read from a file (with any no-data value) has the file's values at their coordinates, and reading it again, cached or not, gives the same.",
  ["inputs", "histories", "configurations"], "every limit, index kind, tile size, missing-cell pattern and window within the size bounds, both directions",
  "Tests crop one raster at cell edges and read one file; partial cells, reversed axes, negative steps, a zero no-data value and read-after-cache orders are not tried.",
  ["raster"], ["Grid.crop_extent", "Raster.crop", "Raster.__getitem__", "Grid.tile_indices", "Raster.data_extent", "Raster.open", "Raster.read"],
  note="GDAL is replaced for the solver by a stand-in file with GDAL's nearest-neighbor windows; replays use a real GeoTIFF. ")

P("R04", "Snapping positions and boxes to a grid",
  "Snapping returns the nearest cell edge or center (as asked) to each point, halfway points go to the higher index, and with bounds required to the nearest position within the grid. "
  "Snapping a box returns the snapped corners of the part of it on the grid (with the indices they bound), at least one cell, and refuses boxes beyond the grid.",
  ["inputs", "configurations"], "every grid position, direction, point and box within the size bounds",
  "Tests snap one point; ties, reversed axes and boxes across bounds are not tried.",
  ["raster"], ["Grid.snap_xy", "Grid.snap_box"])

P("R05", "Sampling a raster is bilinear (or nearest) at points and on grids",
  "The value sampled at any point within the raster is the bilinear interpolation of cell centers (or the nearest cell), including between the outermost centers and the bounds; points beyond are refused, filled or extrapolated as asked. "
  "Sampling a grid gives the same as sampling its points, in the order asked, and missing cells affect only the points that depend on them.",
  ["inputs", "configurations"], "every raster value, position, direction, sample point and missing-cell pattern within the size bounds",
  "Tests sample one raster at one point inside; edges, reversed axes, single rows and missing cells are not.",
  ["raster"], ["Raster.sample", "Raster._sample_grid", "Raster._sample_1d", "Raster.Zf"],
  note="scipy's grid and spline interpolators are replaced by the (bi)linear interpolation they document; replays use the real ones. ")

P("R06", "Rasterizing points and filling circles touch exactly the right cells",
  "Rasterizing points gives each cell the mean of the points in it, leaves or marks missing the cells without, and ignores points beyond the raster. "
  "Filling a circle sets exactly the cells within the radius of the center.",
  ["inputs", "configurations"], "every point, value and center within the size bounds, both directions",
  "Tests rasterize one point set.",
  ["raster"], [("rasterize_points", "src/glimpse/helpers.py"), "Raster.rasterize", "Raster.fill_circle"])

P("R07", "Viewsheds and horizons follow the line of sight",
  "Along the viewer's row and column a cell is visible exactly when its elevation angle exceeds that of all nearer cells; a hidden cell anywhere has a nearer cell at least as high in angle, and a closed ring of higher cells hides all beyond and below it; raising a visible cell keeps it visible, and offsets and mirror images change nothing. "
  "The horizon along each heading is the cell with the largest elevation angle, and is missing where no data lie beyond or the ray misses the raster.",
  ["inputs"], "every elevation of the raster, within the size bounds, from viewers in and off cell centers",
  "Tests compare one random DEM with stored output; errors need particular terrain.",
  ["raster"], ["Raster.viewshed", "Raster.horizon"])

P("R08", "Rasters interpolated in time are linear with propagated uncertainty",
  "At a coordinate between two rasters (in any order) the result is linear in the coordinate at every cell of their intersection, with the propagated standard deviation; at the coordinate of a raster it is that raster; beyond all rasters it is refused unless extrapolation is asked for. "
  "Numbers stand for constant rasters, rasters of different extents or cell sizes (and limits, cell sizes and functions passed) give the values of the coarser common grid, resizing samples values at the new cell centers, and the rasters passed are never changed.",
  ["inputs", "configurations"], "every raster value, coordinate and datetime within the bounds",
  "Tests interpolate constant rasters of one extent at one coordinate, where misplaced values cannot be seen.",
  ["raster"], ["RasterInterpolant.nearest", "RasterInterpolant.__call__", "Raster.resize"],
  note="scipy.ndimage.zoom is taken as its matrix of impulse responses computed by the real library on each run. Rasters whose lattices are not aligned are outside the claim. ")

# ---- Tracking ----

P("T01", "Resampling keeps whole particles in proportion to their weights",
  "Resampling by any method gives as many particles as before, each of them one of those before with its own position, velocity and weight, in the number its share of the weights and the random draws call for; particles of zero weight never survive. "
  "Systematic resampling copies each particle its share of the weights times their number rounded up or down, stratified resampling within two of it, and residual resampling at least the whole part of it. "
  "Rounding of the weights never leads outside the particles.",
  ["inputs", "configurations"], "every weight vector and every random draw within the size bounds",
  "Nothing of tracking is tested; random draws near 0 and 1 and weights with zeros or large shares are rarely met by trial.",
  ["track/tracker"], ["Tracker.resample_particles"],
  note="np.random is replaced by inputs, so that all draws are covered. ")

P("T02", "Particle weights are likelihoods; statistics are those of the weights",
  "The mean, covariance and standard deviation of particles are the weighted mean and covariance of their positions and velocities. "
  "Updating weights multiplies each by exp(-sum) of the log likelihoods of the observers with an image and of the motion model, in whatever order, and never gives zero or non-finite weights. "
  "Particles on cells of the viewshed that are not visible, beyond it, or with missing coordinates are refused, and the visible ones accepted.",
  ["inputs", "configurations"], "every particle, weight and likelihood within the size bounds",
  "Nothing of tracking is tested.",
  ["track/tracker"], ["Tracker.particle_mean", "Tracker.particle_covariance", "Tracker.update_weights", "Tracker.test_particles"],
  note="exp is an uninterpreted function with the functional equation on the terms met. ")

P("T03", "Tracks follow the schedule of images",
  "At each datetime the nearest image of each observer is used if it is within maxdt, else none; the datetimes tracked are those asked for, in order and without repeats, that have an image. "
  "Tracking starts each track anew from its own motion model and takes it from the first to the last datetime asked for, forward or backward, evolving by exactly the time between and weighing by exactly the images matched. "
  "The tracks returned hold the state after each datetime, missing where a track was not observed; a track that fails leaves the others as if alone, and tracks of different time units are refused.",
  ["histories", "inputs", "schedules"], "every set of image times, datetimes and reach within the size bounds",
  "Nothing of tracking is tested; the schedule depends on ties, reversed order, failures and gaps.",
  ["track/tracker", "helpers"], ["Tracker.track", "Tracker.parse_datetimes", "Tracker.match_datetimes", ("pairwise_distance_datetimes", "src/glimpse/helpers.py"), ("select_datetimes", "src/glimpse/helpers.py")],
  note="Tracks run in one process; parallel runs use the same function for each track. ")

P("T04", "Particles are compared with images at their displacement",
  "The log likelihood of a particle is the mean squared difference between the template and the image displaced by the particle's motion since the template was taken, interpolated to subpixels, over twice the squared observer error; an image in which the particles come too near the bounds is skipped. "
  "Templates are taken around the mean of the particles, and tiles do not depend on brightness, contrast or, once matched, any increasing change of brightness.",
  ["inputs", "configurations"], "every pixel value and particle position within the size bounds",
  "Nothing of tracking is tested; errors are fractions of a pixel and depend on the fraction of the template and each particle.",
  ["track/tracker", "track/observer", "helpers"], ["Tracker.compute_observer_log_likelihoods", "Tracker.initialize_template", "Tracker.extract_tile", ("Observer.sample_tile", "src/glimpse/track/observer.py"), ("match_histogram", "src/glimpse/helpers.py"), ("compute_cdf", "src/glimpse/helpers.py"), ("normalize", "src/glimpse/helpers.py")],
  note="cv2.matchTemplate is taken as the sum of squared differences and scipy's spline of order 1 as bilinear; the median filter is taken over mirrored borders. ")

P("T05", "Motion models move particles as their parameters say",
  "Particles start at the mean plus the standard deviation times an independent draw for each position and velocity component, on or about the surface given (rasters, numbers or none). "
  "They evolve over any time, forward or backward, with constant acceleration drawn anew for each, tangent models change height above the surface by a random slope times the distance moved, particles at rest stay without acceleration, and without random acceleration forward and back again returns. "
  "The likelihood of the height is the squared distance from the surface in units of its uncertainty.",
  ["inputs", "configurations"], "every parameter, draw, time and time unit within the size bounds, for each of the models",
  "Nothing of tracking is tested; models come in Cartesian, cylindrical and tangent forms and any of their parameters may be numbers, rasters or missing.",
  ["track/motion"], ["CartesianMotion", "CylindricalMotion", "TangentCartesianMotion", "TangentCylindricalMotion"],
  note="np.random is replaced by inputs. ")

P("T06", "Observers find, cut, shift, sample and divide their images",
  "An observer keeps its images in the order of their times, refuses a single or repeated time, and finds the image nearest in time to any datetime or given by identity, or none beyond the maximum distance. "
  "Boxes and tiles around image points lie on whole pixels within the frame and hold the pixels of the image there, shifted tiles are those sampled at the shifted pixels, and sampling a tile at any point or grid is its bilinear interpolation (for any tile resolution). "
  "Subsets and splits hold exactly the images within the bounds given, each image at least once, adjacent parts sharing the number asked.",
  ["inputs", "configurations"], "every set of image times, datetime, point, shift and pixel values within the size bounds",
  "Nothing of tracking is tested; errors appear for particular times (ties, out of order), points near the frame, shifts of several bands, resolutions other than one and numbers of parts.",
  ["track/observer"], ["Observer.__init__", "Observer.index", "Observer.tile_box", "Observer.extract_tile", "Observer.shift_tile", "Observer.sample_tile", "Observer.subset", "Observer.split"],
  note="RectBivariateSpline is replaced by bilinear interpolation when symbolic. ")

P("T07", "Tracks report positions, velocities, uncertainties and endpoints",
  "The positions and velocities of tracks are the columns of their means, and their uncertainties those given or the square roots of the diagonals of their covariances. "
  "The first and last valid state of each track are found for any pattern of missing values, for any selection of tracks, and tracks succeed exactly when without errors.",
  ["inputs", "configurations"], "every track value, pattern of missing values and selection within the size bounds",
  "Nothing of tracking is tested; tracks have gaps anywhere and may start late, end early, or hold nothing.",
  ["track/tracks"], ["Tracks.xyz", "Tracks.vxyz", "Tracks.xyz_sigma", "Tracks.vxyz_sigma", "Tracks.endpoints", "Tracks.success"])

P("C05", "Images simulated from elevation models place each cell where it is seen",
  "Projecting an elevation model onto a camera gives each pixel the mean value and depth of the cells which project into it (however the elevations are tiled), or nothing; masked, missing, out-of-frame cells and those behind the camera contribute nothing. "
  "Elevations, masks and values are scaled together by the scale given or by that which matches the size of a pixel at the distance of the tile, within the limits given. "
  "Mismatched values and masks are refused and neither elevations, values nor the camera are changed.",
  ["inputs", "configurations"], "every camera, elevation and value within the size bounds",
  "No test simulates an image: cells may be behind or beside the camera, masked or missing, tiled, and values of one or many bands scaled.",
  ["camera"], ["Camera.project_dem", "Camera.spherical_to_xyz", "Camera.rasterize"],
  note="Serial execution; resampling is linear by construction of its impulse responses. ")

# ---- Image ----

P("I01", "Reading any part of an image gives the part of the resized image",
  "Reading an image gives the pixels of its file resampled to the size of its camera, whatever was read, cached or resized before. "
  "Reading a part gives that part of the whole, whether cached or read directly, and leaves the camera as it was; reading without caching leaves the cache as it was.",
  ["inputs", "histories"], "every pixel value, part and sequence of reads, cachings and resizings within the bounds",
  "The doctests read one part of one image at its original size; stale or wrongly scaled parts appear only in sequences of resizing, caching and reading parts.",
  ["image"], ["Image.read", "Image.size"],
  note="GDAL is replaced by nearest-neighbor windowed reading when symbolic; replays read real files in memory. ")

P("I02", "Image settings are those given, else those of the metadata",
  "Any of image size, focal length and sensor size (in pixels or millimeters) not given when opening an image is taken from its metadata, and any given overrides it, as do the datetime and a camera given as such. "
  "Metadata are parsed as recorded (numerators over denominators, sizes only if complete, sensor sizes of known cameras), or nothing if missing. "
  "The settings given are never modified, and metadata are not read when nothing is missing.",
  ["inputs", "configurations"], "every subset of up to three settings given, every value of them and of the metadata within the bounds",
  "The tests open one photograph with all or none of its settings given; partial combinations conflict with each other in ways no test tries.",
  ["image", "exif"], ["Image.__init__", ("Exif.parse_tag", "src/glimpse/exif.py"), ("Exif.imgsz", "src/glimpse/exif.py"), ("Exif.sensorsz", "src/glimpse/exif.py")],
  note="Tags are given as piexif decodes them. ")

P("I03", "An image projected into another camera shows what lies along each ray",
  "Projecting an image into any other camera at the same position gives each pixel the value interpolated (linearly or nearest) where the ray through it falls in the image, or nothing beyond the pixel centers or behind it. "
  "Cameras elsewhere are refused, and neither camera is changed.",
  ["inputs", "configurations"], "every focal length, principal point and pixel value within the bounds, for several rotations and sizes",
  "The only example plots one photograph turned by a few degrees and checks nothing of the result.",
  ["image"], ["Image.project"],
  note="RegularGridInterpolator is replaced by bilinear interpolation when symbolic. ")

# ---- Optimize ----

P("O01", "Control predicts image points from cameras and keeps its own aligned",
  "Points and every kind of matches predict exactly the image, camera or ray coordinates at which the current cameras would see the world points or each other's image points, for any selection of them. "
  "Observed and predicted follow the sizes of the cameras through any sequence of resizing; changes of a camera that a kind of control does not allow are refused; converting or filtering matches keeps every point with its match and weight, and exactly those within the limits. "
  "Arguments are never modified.",
  ["inputs", "histories", "configurations"], "every image point, focal length, weight and limit within the bounds, for several poses and sequences of changes",
  "The tests fit one set of cameras and only check that the outcome is close; alignment after filters, conversions and resizing is never checked.",
  ["optimize"], ["Points", "Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ", "Matches.filter", "Matches.to_type"])

P("O02", "Optimized parameters are those asked for, and reach the right cameras",
  "Camera and group parameters are parsed as documented (all, none, or by position, with bounds), ordered by camera and then group, and setting them changes exactly those elements of exactly those cameras. "
  "Residuals with given parameters are weighted differences between predicted and observed of the selected points of the cameras so changed, in order of control. "
  "Cameras are left as they were, even if prediction fails.",
  ["inputs", "configurations", "histories"], "every parameter value, weight and state of the cameras within the bounds, for several layouts of cameras, groups and control",
  "The tests use one or two layouts and check the fit, not which camera receives which value.",
  ["optimize"], ["Cameras.parse_params", "Cameras.set_cameras", "Cameras.residuals", "Cameras.predicted", "Cameras.update_params"],
  note="lmfit.Parameters is replaced by a plain container when symbolic. ")

P("O03", "Scales, sparsity and checks of camera models follow their definition",
  "The sparsity structure has an entry exactly where a residual can depend on a parameter, for any order of cameras, groups and control. "
  "Scales are by type of parameter as documented and averaged over groups, in order of parameters. "
  "Parameters with several meanings or without control are refused and others are not.",
  ["inputs", "configurations"], "every layout of up to three cameras within the bounds, and every distance of control",
  "The tests never look at the structure; a missing entry silently freezes a parameter.",
  ["optimize"], ["Cameras._build_sparsity", "Cameras.camera_scales", "Cameras._test_camera_options"])

P("O04", "Fitting gives the optimizer the model and returns what it finds",
  "Whatever the optimizer returns, each stage starts from the outcome of those before with its own parameters, groups, scales and sparsity, its function gives the residuals of any parameters, and the values returned are those of the last stage, or none without success. "
  "Cameras and parameters are left as they were, and other arguments are passed on.",
  ["inputs", "histories", "configurations"], "every initial state and every outcome of the optimizer within the bounds, up to three stages",
  "The tests fit with one optimizer that always succeeds.",
  ["optimize"], ["Cameras.fit"],
  note="lmfit.minimize is replaced by an optimizer that returns any values. ")

P("O05", "Random sample consensus and keypoint matching keep what they promise",
  "Samples are of different points and never repeat, and as many are drawn as exist or were asked for. "
  "Consensus returns the fit of least mean error among those to the points near a valid sample, with all points near it, or fails when no sample is valid. "
  "Matched keypoints are nearest neighbors which pass every test asked for, in order, with their coordinates.",
  ["inputs", "schedules"], "every error, distance and coordinate of up to four points or three keypoints, and every order of samples within the bounds",
  "The tests use one seed and points without failures; ties between tests, exhausted samples and failed fits are not tried.",
  ["optimize"], ["ransac", "ransac_samples", "match_keypoints"],
  note="Detection of keypoints by OpenCV is outside the claim. ")

P("O06", "Orienting an observer gives the optimizer the true objective",
  "The objective is the sum of absolute differences between unit rays of matched points plus weighted squared angles from the original orientations of anchors, its gradient is its derivative by every view direction, and it starts at the current orientations. "
  "Whatever the optimizer returns is returned, and cameras are left at their original orientations.",
  ["inputs", "configurations"], "every original orientation, anchor weight and angle of one camera, for several pairs of matched points",
  "No test orients an observer; a wrong gradient still converges, elsewhere.",
  ["optimize"], ["ObserverCameras.fit", "ObserverCameras.set_cameras", "ObserverCameras.reset_cameras", ("Camera.Rprime", "src/glimpse/camera.py")],
  note="scipy.optimize.minimize is replaced by an optimizer which evaluates the objective anywhere. ")

P("O07", "Keypoints and matches of image sequences are those asked for",
  "Keypoints are those in memory, else of the file, else detected (always, if overwritten), and matches are built for exactly the pairs within reach in time or sequence of which an image is selected, from the keypoints of both or the file, converted, weighted and filtered as asked. "
  "Each is stored with the cameras of its images in a matrix with one row and column for each image, and counting, breaking, converting, filtering and dropping follow it; files are written only as asked.",
  ["inputs", "histories", "configurations"], "every set of image times, pairs and points within the bounds, and every combination of options within groups",
  "No test builds matches.",
  ["optimize"], ["KeypointMatcher.build_keypoints", "KeypointMatcher.build_matches", "KeypointMatcher.drop_images", "KeypointMatcher.match_breaks", "KeypointMatcher.filter_matches", "KeypointMatcher.convert_matches"],
  note="Parallel processing and pickles are outside the claim. ")

P("V01", "Conversions between camera models are exact where documented, residuals true",
  "Converting a camera to or from an Agisoft, MATLAB, OpenCV or PhotoModeler camera, where documented as exact, images every point at the same coordinates by the other software's documented model, does not optimize, and is undone by the converse. "
  "Residuals between any two cameras are the difference of the image coordinates each model gives the same point, at the points given or on a regular grid of about the number asked.",
  ["inputs", "configurations"], "every focal length, principal point and coefficient of each model within the bounds, and every image point",
  "Tests convert one camera of each model, and only test that the residuals of glimpse's own formulas are small.",
  ["convert/converter", "convert/cameras/agisoft", "convert/cameras/matlab", "convert/cameras/opencv", "convert/cameras/photomodeler"],
  ["Converter.residuals", "Converter._grid", ("Agisoft._xy_to_uv", "src/glimpse/convert/cameras/agisoft.py"), ("Matlab._xy_to_uv", "src/glimpse/convert/cameras/matlab.py"),
   ("OpenCV._xy_to_uv", "src/glimpse/convert/cameras/opencv.py"), ("PhotoModeler._uv_to_xy", "src/glimpse/convert/cameras/photomodeler.py")],
  note="Residuals which need an inverse of glimpse's distortion are outside the claim. ")

P("V02", "Fitting camera models changes exactly the parameters selected",
  "Converting a camera that has no exact equivalent optimizes the parameters documented, or those asked for by name and index, from their initial values, by the residuals of the camera as it would be. "
  "Afterwards those parameters have the values the optimizer returned, all others and the other camera are as they were, and without optimization the initial camera is returned.",
  ["inputs", "configurations"], "every value of the parameters and every result of the optimizer, for each model and several selections",
  "Tests optimize with the documented defaults only and look at the residuals.",
  ["convert/converter", "convert/cameras/agisoft", "convert/cameras/matlab", "convert/cameras/opencv", "convert/cameras/photomodeler"],
  ["Converter.optimize_cam", "Converter.optimize_xcam", ("Agisoft.to_camera", "src/glimpse/convert/cameras/agisoft.py"), ("PhotoModeler.from_camera", "src/glimpse/convert/cameras/photomodeler.py")],
  note="scipy.optimize.least_squares is replaced by an optimizer which may evaluate and return anything. ")

P("V03", "Calibration files and vectors of other software are read as they define them",
  "Reading an Agisoft or OpenCV calibration, a MATLAB or PhotoModeler report, or OpenCV's camera matrix and distortion vector gives each parameter the number written for it (a third of MATLAB's errors as standard deviations) and zero those absent. "
  "An OpenCV camera returns the matrix and vector it was built from; unsupported projections are refused and unsupported coefficients warned of.",
  ["inputs", "configurations"], "every number in the file, for several layouts and subsets of entries",
  "Tests read one file of each kind.",
  ["convert/cameras/agisoft", "convert/cameras/matlab", "convert/cameras/opencv", "convert/cameras/photomodeler"],
  [("Agisoft.from_xml", "src/glimpse/convert/cameras/agisoft.py"), ("OpenCV.from_xml", "src/glimpse/convert/cameras/opencv.py"), ("OpenCV.from_arrays", "src/glimpse/convert/cameras/opencv.py"),
   ("Matlab.from_report", "src/glimpse/convert/cameras/matlab.py"), ("PhotoModeler.from_report", "src/glimpse/convert/cameras/photomodeler.py")],
  note="Numerals are opaque to the solver: float() is assumed to read the number written. ")

P("S01", "Vertices of svg elements are those of the drawing",
  "Path commands, absolute or relative, are followed vertex by vertex as the svg specification defines, including closed subpaths, and other elements give their documented points. "
  "Points written as an element are read back, and bounding boxes, closure, scaling, translation and matrices are as defined.",
  ["inputs", "configurations"], "every number, for every sequence of commands up to the bound and three layouts of the text",
  "Tests read each command once after a move.",
  ["svg"], ["Points._from_path", "Points.from_element", "Points.to_element", "Points.transform", "Points.bbox"],
  note="Numerals are opaque to the solver: float() is assumed to read the number written. ")

P("S02", "Svg annotations are read as image coordinates",
  "Each element's vertices are transformed by its own, then its groups' transformations, and are given relative to the (last) image's corner and scaled from its size to the target size, or relative to the drawing without an image. "
  "They are named by key or tag, nested by group, and listed in order where they share a name; a drawing written is read back unchanged.",
  ["inputs", "configurations"], "every coordinate, size and component of the transformations, for several drawings",
  "Tests read one drawing of integers.",
  ["svg"], ["read", "Points.transform", "write"],
  note="Transformations of the image are positive scales and translations; numerals are opaque to the solver. ")

P("O08", "Lines predict the nearest point of the projected world lines",
  "For each observed point selected, the prediction lies on the part of the world lines that projects into the image and is the nearest such point within the density of points asked for, or the nearest vertex when no line is in view. "
  "Vertices behind the camera take no part, both kinds of points follow a resized camera, ray directions are refused once the camera moves, and the lines given stay as they were.",
  ["inputs", "configurations"], "every position of the observed point and of the line within the bounds, for each length, density and view",
  "Tests optimize one camera with lines and look at the fitted parameters.",
  ["optimize", "helpers"], ["Lines.predicted", "Lines.observed", "Lines._prepare_lines", "clip_polyline_box", "interpolate_line"],
  note="Lines have two vertices and are seen without lens distortion (decided by C02). ")

P("R09", "Slopes, shading, filling and polygons of rasters follow the surface",
  "Gradients are the derivatives along the axes whichever way they run (exact on planes, else within the slopes to adjacent cells), shading is of the surface in map coordinates lit from the azimuth, and crevasses are filled by the weighted mean of local maxima of the included cells alone. "
  "Polygons cover the cells whose centers are in one and in no hole, value limits and boxes ignore missing values, and rasters are equal where their limits and values are.",
  ["inputs", "configurations"], "every value of the cells, vertex of polygons and mask within the bounds, for each direction of the axes",
  "Tests burn one square and compare rasters to themselves.",
  ["raster", "helpers"], ["Raster.gradient", "Raster.hillshade", "Raster.fill_crevasses", "Raster.rasterize_polygons", "Raster.zlim", "Raster.box3d", "Raster.__eq__", "polygons_to_mask"],
  note="matplotlib's light source, GDAL's burning of polygons and scipy's filters are taken from their documentation. ")

P("R10", "Rasters written to files are read back",
  "A raster written to a file has there its size, limits, coordinate reference system and values, with missing values kept or stored as the value given for them, so that opening the file returns the raster that was written, and the raster itself stays as it was. "
  "Each layer of an array is a band, formats which only copy hold the same, and what cannot be written is refused without a file.",
  ["inputs", "configurations"], "every value of the cells and origin within the bounds, for each place of missing values, type and format",
  "Tests write and read one raster, without a value for missing ones.",
  ["raster", "helpers"], ["Raster.write", "Raster.open", "Raster.read", "Grid.read", "write_raster"],
  note="GDAL's drivers are assumed to store what they are given. ")

P("W01", "Results do not depend on parallel processing",
  "Keypoints, matches (their points, weights, files and cameras), conversions, filters, simulated images and tracks computed in parallel are those computed in series, whichever worker runs which task, whichever finishes first, and whether workers are processes or threads. "
  "Matches refer to the cameras of the images themselves, cleared keypoints are cleared, and tracks keep their particles, templates and failures to themselves.",
  ["schedules", "inputs", "configurations"], "every division of labor, order of results and interleaving of up to 2-3 workers within the bounds",
  "Tests run nothing in parallel: state changed in another process is lost, results arrive in any order, and threads share what processes do not.",
  ["optimize", "camera", "track/tracker", "config"], ["KeypointMatcher.build_keypoints", "KeypointMatcher.build_matches", "KeypointMatcher.convert_matches", "KeypointMatcher.filter_matches", "Camera.project_dem", "Tracker.track"],
  note="sharedmem is modeled: workers with copies of all state (processes) or sharing it and interrupted at a line (threads), with the schedule symbolic. Random numbers and warnings are not compared. ")

P("V04", "Cameras, objects and metadata written to files are read back",
  "A camera or JSON object written to a file is read back with the same values, whatever the indentation, separators and flattening of arrays, and strings are kept as they are; so is an object pickled, compressed or not, as binary or text. "
  "Exif metadata inserted into an image is read back from it, and invalid metadata is refused and leaves the image as it was.",
  ["inputs", "configurations"], "every number, string from the listed alphabet and nesting within the bounds, and every listed combination of writing options",
  "Tests write a few files: the formatting rewrites the encoded text with patterns, which fail only for certain strings, nestings and options.",
  ["camera", "helpers", "exif"], ["Camera.to_json", "Camera.from_json", "helpers.write_json", "helpers.read_json", "helpers.write_pickle", "helpers.read_pickle", "Exif.dump", "Exif.insert"],
  note="Numbers pass through the json and pickle modules as opaque tokens and piexif is a recording stub. ")

# ---- What this technique cannot decide here ----

P("N01", "Fitting cameras converges to the parameters that best explain the controls",
  "Cameras.fit and ObserverCameras.fit end at parameters whose residuals no nearby parameters improve, from any start near enough. "
  "With exact controls that determine the parameters, these are the true ones.",
  ["inputs", "histories"], "every start, set of controls and choice of parameters",
  "Tests fit a few synthetic cameras.",
  ["optimize"], ["Cameras.fit", "ObserverCameras.fit", "ransac"],
  na="The iteration runs in compiled MINPACK/TRF code (lmfit, scipy.optimize) on floats: neither its source nor an intermediate representation is here to encode, and termination by floating-point tolerances is not a bounded formula. The residuals, Jacobian sparsity, scales, weights, groups and bookkeeping handed to it are decided by O02-O06.")

P("N02", "Keypoints identify the same features across images",
  "Features present in two overlapping images are detected in both and matched to each other rather than to other features. "
  "Masked areas yield none.",
  ["inputs"], "every pair of images",
  "Tests use no real imagery for this.",
  ["optimize"], ["detect_keypoints", "match_keypoints"],
  na="Detection, descriptors and nearest-neighbor search are compiled OpenCV code; what glimpse does with their results (ratio tests, limits, masks, caching, merging) is decided by O07 and W01 with OpenCV replaced by a stand-in.")

P("N03", "Iterative lens undistortion converges for every realistic lens",
  "For every lens whose distortion is one-to-one over the image, undistorting by lookup, Oulu iteration or regula falsi returns the undistorted coordinates to within the stated tolerance. ",
  ["inputs"], "every point and set of coefficients for which the distortion is one-to-one",
  "Tests try one camera.",
  ["camera"], ["Camera._undistort_lookup", "Camera._undistort_oulu", "Camera._undistort_regulafalsi"],
  na="Up to 20-100 iterations of a rational map of degree 6 compose to formulas far beyond any solver, and the lookup table needs scipy's scattered interpolation; the closed form (k1 only), the dispatch, single steps and fixed points are decided by C02.")

P("N04", "Random draws have the stated distributions",
  "Particles start, accelerate and are resampled with the stated means, standard deviations and probabilities. "
  "Tracks with the same seed are reproducible.",
  ["schedules"], "every seed",
  "Tests cannot sample enough.",
  ["track/motion", "track/tracker"], ["initialize_particles", "evolve_particles", "Tracker.resample_particles"],
  na="A statement about distributions of numpy's generator, not about each value: a solver decides what the code does with any draws (T01, T05), not how often a generator gives them.")

P("N05", "The integer image size closest to a scale is found",
  "get_scale_from_size returns a scale that gives exactly the new size wherever one exists. ",
  ["inputs"], "every pair of sizes",
  "The search is stochastic.",
  ["helpers"], ["get_scale_from_size"],
  na="scipy.optimize.differential_evolution is a randomized search on floats; only its result is checked, by the code itself.")

P("P01", "Plots show errors, tracks, rasters and images at their coordinates",
  "Arrows of points, lines, matches, converters and whole models run from what is observed to what is predicted, for the points selected and otherwise styled or hidden as asked, and plotting a model with other parameters leaves its cameras as they were, even when it fails. Tracks, their velocities and uncertainties, polynomials, weights, rasters, images and tiles are plotted at their own coordinates and extents.",
  ["inputs"], "every set of points, tracks, rasters and images, selection and style",
  "Tests only check that plotting does not raise for one default case.",
  ["optimize", "raster", "image", "track/tracks", "track/observer", "convert/converter"],
  ["Points.plot", "Lines.plot", "Matches.plot", "Polynomial.plot", "Cameras.plot", "Raster.plot", "Tracks.plot_xy", "Tracks.plot_v1d", "Observer.plot_tile"],
  note="What matplotlib draws of what it is given is taken from its documentation. ")

P("P02", "Animations show in each frame its image, position and history",
  "For any point, frames and tile size, each frame of an observer's animation shows the pixels of that frame's image over their extent (white if there are none), the point where that image has it, and limits that follow it or do not; an animated track shows the positions so far, in that frame's image and on the map, the label of that image, and velocities and particles scaled to the next frame shown. "
  "Frames are those asked for which have a position and an image, and nothing of a frame remains in those after.",
  ["inputs", "histories"], "every point, track, set of frames, tile size and sequence of frames",
  "There are no tests of animations, and the doctests do not run any.",
  ["track/observer", "track/tracks"], ["Observer.animate", "Observer.track", ("Tracks.animate", "src/glimpse/track/tracks.py")],
  note="matplotlib's calls of the frame function and its axes are taken from its documentation; replays use the real axes. ")



def claimed(d, na):
    return na is None and os.path.exists(os.path.join(HERE, "props", d["id"] + ".py"))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, note, na in PROPS:
            if na or claimed(d, na):
                f.write(json.dumps(d) + "\n")
    py = "/opt/venv/bin/python"
    checks, out = [], []
    for d, note, na in PROPS:
        if claimed(d, na):
            checks.append({
                "property": d["id"],
                "quick_cmd": "%s check.py %s --tier quick" % (py, d["id"]),
                "thorough_cmd": "%s check.py %s --tier thorough" % (py, d["id"]),
                "technique": SYMX, "level": "model_checking", "level_note": (NOTE + note).strip()})
        elif na:
            out.append({"property": d["id"], "reason": na})
    m = {"version": 1, "setup_cmd": "%s -c \"import symx\"" % py, "checks": checks, "not_applicable": out,
         "notes": "spec.py writes this file and properties.jsonl. No hooks: the checks execute /repo's current source. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(out), "not applicable")


if __name__ == "__main__":
    main()
