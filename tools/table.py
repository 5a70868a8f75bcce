# executed by props.py
SEARCH = "The deciding step is a seeded generated-input search: no absence claim beyond the cases explored. "

prop("C01", "Pixel-to-ground and ground-to-pixel are inverse for every camera model",
     "For every supported camera model, converting an image position at a given height to the ground and back gives the same image "
     "position, within the requested pixel error threshold, and converting a ground position within the camera's view to the image "
     "and back at the same height gives the same ground position. This holds in the camera's own CRS and in any other CRS the caller "
     "names, for scalars and arrays.",
     ["inputs", "configurations"],
     "All camera models (pinhole, Pix4D, OpenCV, RPC, GeoTIFF), poses up to strong tilt with any heading, lens distortions, detector "
     "sizes, heights, image and ground positions, CRSs, error thresholds.",
     "The tests convert a handful of points of one camera per model; the iterative solver's behaviour depends on pose, distortion, "
     "scale, CRS and starting guess, so it must be searched over all of them.",
     [PC + "abstract_earth_overhead_point_calc.py", PC + "ideal_pinhole_fpa_local_utm_point_calc.py", PC + "pix4d_point_calc.py",
      PC + "opencv_point_calc.py", PC + "rpc_point_calc.py", PC + "geotiff_point_calc.py"],
     [("iterative pixel/height to ground solver", PC + "abstract_earth_overhead_point_calc.py:pixel_x_y_alt_to_lon_lat"),
      ("finite-difference step selection", PC + "abstract_earth_overhead_point_calc.py:_pixel_x_y_alt_to_lon_lat_native")],
     "property-based testing (Hypothesis): round-trip relation plus independent Newton inversion of a reference camera",
     SEARCH + "Poses are limited to those whose footprint the camera can see (tilt and distortion within invertible range).")

prop("C02", "Frame cameras project ground points as their published camera equations say",
     "For every pinhole, Pix4D and OpenCV camera, the image position of a ground point in front of the camera is the one given by the "
     "collinearity equations with the camera's pose, focal length, pixel pitch, principal point and lens distortion polynomial. The "
     "result does not depend on the length and angle units, nor on the CRS, in which the same camera was described.",
     ["inputs", "configurations"],
     "All poses, focal lengths, pixel pitches, principal points, distortion coefficients, units and sensor positions (any UTM zone, "
     "either hemisphere); all ground points within or around the field of view.",
     "The tests compare a few points of one fixture camera per model with stored values; sign, order or unit errors that cancel there "
     "show only for other poses, units and coefficients.",
     [PC + "ideal_pinhole_fpa_local_utm_point_calc.py", PC + "pinhole_camera.py", PC + "pix4d_point_calc.py",
      PC + "opencv_point_calc.py", "resippy/utils/proj_utils.py"],
     [("pinhole projection", PC + "pinhole_camera.py"), ("Pix4D projection with distortion", PC + "pix4d_point_calc.py"),
      ("OpenCV projection with distortion", PC + "opencv_point_calc.py")],
     "property-based testing (Hypothesis): differential against reference camera equations and cv2.projectPoints",
     SEARCH + "Reference equations are written independently in 64-bit floats; distortions are limited to the range where they are monotonic.")

prop("C03", "RPC cameras evaluate the RPC00B polynomials and read them from image files",
     "For every set of RPC coefficients, offsets and scales, the image position of a longitude, latitude and height is the ratio of "
     "the RPC00B cubic polynomials in the normalised coordinates, with the standard order of the 20 terms. An image file carrying RPC "
     "metadata gives the same camera as GDAL reads from it, and its pixels unchanged.",
     ["inputs", "configurations"],
     "All coefficient vectors, offsets and scales; all ground points in the normalised cube and somewhat beyond; all image files with RPC metadata.",
     "The tests use one RPC file; a swapped term whose coefficient is tiny in that file is invisible to them.",
     [PC + "rpc_point_calc.py", EO + "digital_globe/view_ready_stereo/"],
     [("polynomial evaluation", PC + "rpc_point_calc.py"), ("RPC metadata parsing", EO + "digital_globe/view_ready_stereo/")],
     "property-based testing (Hypothesis): differential against an independent RPC00B evaluation and GDAL's RPC transformer",
     SEARCH + "Denominators are kept away from zero. GDAL is trusted as the reader of RPC metadata.")

prop("C04", "Batched, per-band and foreign-CRS camera queries agree with single queries",
     "Asking a camera or multi-band sensor about an array of points gives, element by element and with the same shape, what asking about "
     "each point alone gives, in either direction and in any CRS, and leaves the caller's arrays unchanged. A sensor made of one camera per band "
     "answers for each band exactly what that band's camera answers.",
     ["inputs", "configurations", "histories"],
     "All camera models, shapes (scalar, 1-d, 2-d), CRSs, band counts and band choices.",
     "Tests use one shape and one CRS per call; aliasing of arguments and shape mix-ups need particular combinations.",
     [PC + "abstract_earth_overhead_point_calc.py", PC + "earth_overhead_sensor_model.py"],
     [("shape handling and CRS conversion around the native calls", PC + "abstract_earth_overhead_point_calc.py"),
      ("band dispatch", PC + "earth_overhead_sensor_model.py")],
     "property-based testing (Hypothesis): metamorphic relation between batched and single calls",
     SEARCH + "Inverse results are compared within the solver's own pixel threshold.")

prop("C05", "Rotation matrices and recovered angles describe the stated rotation",
     "For every set of omega, phi and kappa in any supported order and unit, the rotation matrix is the product of the three axis "
     "rotations in that order. The angles recovered from a rotation matrix give back the same rotation, and boresight offsets computed "
     "from two orientations take one orientation to the other. An unknown order is refused.",
     ["inputs"],
     "All angles including those near 0, 90 and 180 degrees; every order name; degrees and radians.",
     "Tests check a few angles; loss of precision and quadrant errors occur only near particular angles.",
     ["resippy/utils/photogrammetry_utils.py"],
     [("matrix construction", "resippy/utils/photogrammetry_utils.py:create_M_matrix"),
      ("angle recovery", "resippy/utils/photogrammetry_utils.py:solve_for_omega_phi_kappa"),
      ("boresight offsets", "resippy/utils/photogrammetry_utils.py")],
     "property-based testing (Hypothesis): differential against elementary rotations; round trip through recovered angles",
     SEARCH + "At gimbal lock (phi within 1e-3 degrees of +-90) only the matrix is checked.")

prop("C06", "A camera mounted on a fixture follows every change of the fixture's pose",
     "A camera attached to a fixture has the position of the fixture plus its lever arm carried along with the fixture's orientation, and "
     "an orientation that is its boresight composed with the fixture's. After any sequence of pose, lever arm and boresight changes, "
     "only the latest values count.",
     ["inputs", "histories"],
     "All poses, lever arms, boresights and units, and all sequences of updates.",
     "Tests use one pose and one update; composition order and stale state need rotated fixtures and several updates.",
     [PC + "fixtured_camera.py", PC + "pinhole_camera.py"],
     [("pose composition", PC + "fixtured_camera.py")],
     "property-based testing (Hypothesis): reference model of pose composition, including stateful update histories",
     SEARCH + "The convention (vehicle frame to world by the transposed rotation) is the one the code's docstrings and callers use.")

prop("C07", "Map images keep pixels, georeferencing, CRS and no-data through file round trips",
     "A map image written to disk and read again, by this package or by GDAL, has the same pixels, data type, geotransform, CRS and "
     "no-data value, also after any sequence of band edits and writes. Reprojecting a map image, once or again, gives what GDAL gives for the "
     "same data, and attaching a vertical datum keeps grid and values and carries the new datum.",
     ["inputs", "configurations", "histories"],
     "All sizes, band counts, data types, no-data values (fractional, negative, nan, none), geotransforms, CRSs, compressions; all edit/write sequences.",
     "Tests write one image with one no-data value; type conversions lose information only for particular values and types.",
     [EO + "geotiff/geotiff_image.py", EO + "geotiff/geotiff_image_factory.py", EO + "geotiff/geotiff_metadata.py"],
     [("writer", EO + "geotiff/geotiff_image.py:write_to_disk"), ("readers", EO + "geotiff/geotiff_image_factory.py"),
      ("reprojection", EO + "geotiff/geotiff_image.py")],
     "property-based testing (Hypothesis): round trip and differential against GDAL, with edit histories",
     SEARCH + "GDAL is trusted as reader, writer and reprojector.")

prop("C08", "Elevation models return the elevation of the place asked for",
     "An elevation model answers with the elevation of the cell containing the position (nearest) or the bilinear blend of the four "
     "surrounding samples, in whatever CRS the position is given, with no-data reported as not-a-number and positions outside answered by the closest edge. Highest, lowest and mean "
     "elevation ignore no-data, unknown interpolations are refused, and conversions to and from a geoid add or remove exactly its undulation.",
     ["inputs", "configurations"],
     "All rasters (sizes, data types, geotransforms, CRSs, no-data patterns), positions (interior, on samples, on edges, outside), CRSs, interpolations.",
     "Tests query one DEM at a few places; interpolation weights, edges, no-data and CRS combinations are not reached.",
     ["resippy/photogrammetry/dem/geotiff_dem.py", "resippy/photogrammetry/dem/abstract_dem.py", "resippy/photogrammetry/dem/constant_elevation_dem.py",
      "resippy/photogrammetry/dem/dem_factory.py"],
     [("elevation lookup", "resippy/photogrammetry/dem/geotiff_dem.py"), ("CRS handling", "resippy/photogrammetry/dem/abstract_dem.py")],
     "property-based testing (Hypothesis): differential against a reference raster model; analytic affine terrain",
     SEARCH + "A bilinear sample is taken to sit at the cell's integer index position, as the package does throughout.")

prop("C09", "Casting a pixel's ray finds the first terrain point the pixel sees",
     "The ground position found for a pixel lies on the pixel's line of sight and on the terrain, within the sampling distance asked for, "
     "and no terrain in front of it blocks the view. On level terrain it equals the position asked for directly at that height.",
     ["inputs", "configurations"],
     "All camera models, poses and pixels over all terrains (flat, sloped, ridges, stepped) and sampling distances, terrain in the camera's CRS or another.",
     "The one ray-casting test uses one image and terrain; occlusion and sampling errors need particular relief and slant.",
     [PC + "abstract_earth_overhead_point_calc.py"],
     [("ray marching", PC + "abstract_earth_overhead_point_calc.py:pixel_x_y_to_lon_lat_alt")],
     "property-based testing (Hypothesis): validity predicate against an analytic terrain and reference camera",
     SEARCH + "Relief narrower than the sampling distance is not judged.")

prop("C10", "Every pixel of an orthorectified image shows what the camera saw at that place",
     "Each pixel of an orthorectified image shows the source image interpolated at the position where the camera sees that pixel's place on the "
     "terrain, and shows no-data where the camera does not see it; the requested size, extent, CRS, bands, data type and transparency are "
     "honoured, in memory and on disk. Sampling an image at places on the ground gives the mean of the data around them, and not-a-number outside.",
     ["inputs", "configurations"],
     "All cameras (co-registered bands or not, in memory or on disk), terrains, output grids and CRSs, interpolation orders, no-data values, band selections.",
     "Tests orthorectify two images and inspect nothing but success or a few numbers; registration, no-data and band mix-ups go unseen.",
     ["resippy/photogrammetry/ortho_tools.py", "resippy/utils/photogrammetry_utils.py", "resippy/utils/image_utils/image_utils.py",
      "resippy/image_objects/abstract_image.py"],
     [("orthorectification", "resippy/photogrammetry/ortho_tools.py:create_ortho_gtiff_image_world_to_sensor"),
      ("output georeferencing", "resippy/utils/photogrammetry_utils.py:world_poly_to_geo_t"),
      ("values at places", "resippy/photogrammetry/ortho_tools.py:get_pixel_values")],
     "property-based testing (Hypothesis): independent resampling of the image through a reference camera and analytic terrain",
     SEARCH + "The outermost two rows and columns may be shown or no-data; integer images are reproduced to +-1.")

prop("C11", "Ground grids, pixel places and extents describe the ground the image covers",
     "A ground grid tiles its box with equal cells, top row first, and its positions and geotransform agree. The place found for a pixel is on the pixel's "
     "line of sight and on the terrain; the extent of an image is the hull of the places its border pixels see, over the bands asked for. Orthorectifying a "
     "whole image covers that extent with pixels of the ground sampling distance asked for and shows at each place what the camera saw there.",
     ["inputs", "configurations"],
     "All cameras (co-registered bands or not), terrains, grid sizes, boxes, band selections, native and output CRSs.",
     "Tests make full-image orthos of two images and look at nothing but success; wrong extents or cell sizes look plausible.",
     ["resippy/photogrammetry/ortho_tools.py", "resippy/utils/photogrammetry_utils.py"],
     [("ground grid", "resippy/utils/photogrammetry_utils.py:create_ground_grid"), ("pixel places", "resippy/photogrammetry/ortho_tools.py:get_pixel_lon_lats"),
      ("image extent", "resippy/photogrammetry/ortho_tools.py:get_extent"), ("whole-image ortho", "resippy/photogrammetry/ortho_tools.py:create_full_ortho_gtiff_image")],
     "property-based testing (Hypothesis): geometric oracle from reference cameras, analytic terrain and exact hulls",
     SEARCH + "Extents on terrain that is not level are judged within the height range the terrain allows.")

prop("C12", "Places hidden by terrain are reported as hidden and visible ones as visible",
     "For pixels and the places on the ground they look at, a place is reported obstructed by the terrain exactly when terrain rises above the pixel's line of "
     "sight between the camera and the place, sampled at the distance asked for, in whatever CRS the camera and the terrain are.",
     ["inputs", "configurations"],
     "All camera positions and directions, terrains (ridges, steps, slopes), sampling distances, camera and terrain CRSs.",
     "No test looks for obstructions by terrain.",
     ["resippy/photogrammetry/ortho_tools.py"],
     [("terrain obstruction", "resippy/photogrammetry/ortho_tools.py:are_pixels_obstructed_by_dem")],
     "property-based testing (Hypothesis): analytic line-of-sight oracle over generated terrain",
     SEARCH + "Cases within the sampling distance of the boundary between hidden and visible are not judged.")

prop("C13", "Images carrying a ground position per pixel give back those positions",
     "An image with a table of pixel positions answers, for every pixel, the tabulated position (in any CRS asked for), and for every position on the "
     "ground the pixel nearest to it. Orthorectifying it puts the pixels at their positions; a table made from a camera image "
     "holds for every pixel the place on the terrain which the camera sees in that pixel.",
     ["inputs", "configurations"],
     "All tables (sizes, rotation, aspect, curvature), CRSs, altitudes as numbers or arrays, data types; all cameras and terrains as source.",
     "Tests make one such image and check nothing about positions; transposed or truncated tables look plausible.",
     [EO + "igm/igm_image.py", PC + "igm_point_calc.py", "resippy/photogrammetry/ortho_tools.py"],
     [("position table", PC + "igm_point_calc.py"), ("table from a camera image", "resippy/photogrammetry/ortho_tools.py:create_igm_image"),
      ("orthorectification of tables", "resippy/photogrammetry/ortho_tools.py:create_ortho_gtiff_image_world_to_sensor")],
     "property-based testing (Hypothesis): table as the reference model; reference cameras and analytic terrain",
     SEARCH + "Positions between pixels are judged to one pixel on near-isotropic tables.")


SP = "resippy/spectral/"
IU = "resippy/utils/image_utils/"

prop("C14", "Spectral means and covariances count exactly the unmasked pixels",
     "The spectral mean and covariance of an image cube are those of its unmasked spectra, masked pixels counting in neither, whether the cube is given as an "
     "image or as a list of spectra. Turning cubes into lists of spectra and back moves no spectrum; the caller's arrays stay as they were.",
     ["inputs", "configurations"],
     "All cubes (sizes, data types, scales, orientations in memory) and masks (none, per pixel, in any type).",
     "Tests compute statistics of one random cube; masked pixels leaking in or overflowing types need other cubes.",
     [SP + "spectral_image_processing_1d.py", SP + "spectral_image_processing_2d.py"],
     [("means and covariances", SP + "spectral_image_processing_1d.py"), ("cubes as images", SP + "spectral_image_processing_2d.py")],
     "property-based testing (Hypothesis): differential against direct sums over the kept spectra",
     SEARCH + "Cubes have at least two bands and masks leave at least two spectra.")

prop("C15", "Anomaly and target detectors give every pixel the score of its definition",
     "RX gives each pixel its squared Mahalanobis distance from the unmasked background, ACE its squared cosine with the target in whitened, demeaned space, and SAM the "
     "cosine of the angle with the target. Given statistics are used as given. Scores do not depend on the order of pixels; RX and ACE not on an invertible "
     "mixing of bands, SAM not on brightness; images of any numeric type are scored alike.",
     ["inputs", "configurations"],
     "All cubes, data types, masks, targets, and statistics given or computed.",
     "Tests run the detectors on one cube and check shapes; wrong normalisation, masks or overflow give plausible pictures.",
     [SP + "spectral_image_processing_1d.py", SP + "spectral_image_processing_2d.py"],
     [("detectors", SP + "spectral_image_processing_1d.py"), ("detectors on images", SP + "spectral_image_processing_2d.py")],
     "property-based testing (Hypothesis): differential against pixel-by-pixel definitions; metamorphic relations",
     SEARCH + "Covariances have full rank; float32 images are judged to about 1e-3.")

prop("C16", "Covariance equalisation and principal components do what defines them",
     "A mean-free scene transformed by covariance equalisation has the covariance of the scene it is matched to, by the symmetric roots of both covariances. Principal components "
     "are uncorrelated, ordered by falling variance and are the projections of the demeaned spectra on the unit eigenvectors of the covariance.",
     ["inputs", "configurations"],
     "All pairs of scenes (sizes, band counts, masks) with covariances of full rank; all numbers of components.",
     "Tests transform one scene and inspect nothing; transposed roots or eigenvectors show only in the resulting statistics.",
     [SP + "spectral_image_processing_1d.py", SP + "spectral_image_processing_2d.py"],
     [("covariance equalisation", SP + "spectral_image_processing_1d.py:compute_cov_eq_linear_transform_matrix"), ("principal components", SP + "spectral_image_processing_2d.py")],
     "property-based testing (Hypothesis): invariants of the transformed statistics against own eigen-decompositions",
     SEARCH + "Components are compared up to sign.")

prop("C17", "Spectra read from library files hold the values in the files",
     "A spectrum read from a USGS, ENVI, SVC or CSV library file has the wavelengths, values, names and band widths stated there, in order, with the library's "
     "marker of missing channels recognised. A spectrum answers with what was set last; asking for values, with or without missing channels, never changes them, nor does changing the values handed out.",
     ["inputs", "configurations", "histories"],
     "All well-formed library files (lengths, number formats, line endings, names, directories) and all sequences of setting and asking.",
     "Tests read one file per format and check nothing but lengths; swapped columns, lost lines and aliasing need other files.",
     [SP + "spectrum.py", SP + "spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py", SP + "spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py",
      SP + "spectrum_factories/SVC/ascii/svc_spectral_factory.py", SP + "spectrum_factories/csv/ascii/csv_spectral_factory.py"],
     [("spectrum", SP + "spectrum.py"), ("library readers", SP + "spectrum_factories/")],
     "property-based testing (Hypothesis): generated library files as the reference; stateful histories of the spectrum object",
     SEARCH + "Values with units are asked for only where the units are unit objects.")

prop("C18", "Resampling a spectrum gives the response-weighted mean in each band",
     "Each band of a resampled spectrum is the integral of spectrum times response over the integral of the response; a constant spectrum stays constant, scaling the "
     "spectrum scales the result, scaling a response does not matter, and channels outside a band, missing or not, do not matter to it; a band that needs missing channels is itself missing.",
     ["inputs"],
     "All spectra (spacing even, uneven or falling, with missing channels), sets of band responses, units and scales.",
     "Tests resample one spectrum to one sensor; spacing, order and gaps of the grid decide whether weights are right.",
     [SP + "spectrum.py", "resippy/utils/spectral_utils.py"],
     [("resampling", "resippy/utils/spectral_utils.py"), ("resampled spectra", SP + "spectrum.py:resample_spectrum_direct")],
     "property-based testing (Hypothesis): differential against direct quadrature; metamorphic relations",
     SEARCH + "Responses are given at rising wavelengths and overlap the spectrum.")

prop("C19", "ENVI images and headers keep their content through reading and writing",
     "An image written in ENVI format reads back, in this package and in GDAL, with the same pixels and type, for every data type, interleave and extension. Images "
     "written by others are read as GDAL reads them, header offset and byte order included. Every header entry is found with its value, and a header read can be written and read again.",
     ["inputs", "configurations", "histories"],
     "All sizes, data types, interleaves, byte orders, offsets, memory layouts; all well-formed headers and repeated read/write cycles.",
     "Tests read one header and one image; other interleaves, types, offsets and entries at the file's end are not reached.",
     ["resippy/utils/envi_utils.py", "resippy/image_objects/envi/envi_image.py", "resippy/image_objects/envi/envi_image_factory.py"],
     [("reader and writer", "resippy/utils/envi_utils.py"), ("image object", "resippy/image_objects/envi/envi_image.py")],
     "property-based testing (Hypothesis): round trip, and differential against GDAL's ENVI driver",
     SEARCH + "Interleave names are lower case; GDAL is trusted as reader and writer.")

prop("C20", "Image chips are the image's own pixels at the places reported",
     "Chips cut from an image hold exactly its pixels, of the bands asked for, at the upper-left places reported; cutting a whole image covers it completely with "
     "the overlap asked for; chips asked for at places are moved only as far as the image's edges demand, and chips about centres a whole number of pixels apart lie as far apart. Written to disk, each chip is one file with its pixels.",
     ["inputs", "configurations"],
     "All image sizes, band counts and selections, data types, chip sizes, overlaps and places, output names, formats and sizes.",
     "Tests chip one image at one size; edges, overlaps and band selections are where pixels go missing.",
     [IU + "image_chipper.py"],
     [("chipping", IU + "image_chipper.py"), ("writing", IU + "image_chipper.py:write_chips_to_disk")],
     "property-based testing (Hypothesis): direct indexing of the image as the reference; coverage invariants",
     SEARCH + "Chips are no larger than the image and stay inside it.")

prop("C21", "Colour maps, normalisation, detection maps and blends follow their definitions",
     "A colour-mapped image gives each pixel the colour its value has on the palette's scale between the clip values; normalising is the linear map to the new range; a "
     "detection image shows the highest score of the chips covering each pixel; blending weighs two images by share and complement; resizing, flattening and pixel grids keep rows, columns and values.",
     ["inputs", "configurations"],
     "All images (sizes, types up to their extremes), palettes, clip values, ranges, scores and places, shares, sizes.",
     "Tests apply one colour map and look at nothing; overflow and off-by-one colours need other types and palettes.",
     [IU + "image_utils.py"],
     [("colour maps", IU + "image_utils.py:apply_colormap_to_grayscale_image"), ("normalisation", IU + "image_utils.py:normalize_grayscale_image"),
      ("detection image", IU + "image_utils.py:create_detection_image_from_scores"), ("resizing and blending", IU + "image_utils.py:resize_image")],
     "property-based testing (Hypothesis): differential against pixel-by-pixel definitions; metamorphic relations for resizing",
     SEARCH + "Images have at least two different values where a scale is derived from them.")

prop("C22", "GPS and UTC times convert exactly, leap seconds included, on any computer",
     "A UTC instant converts to the number of seconds since the GPS epoch, leap seconds counted, and back to the same instant. Later instants get later GPS times, the "
     "difference between the scales changes only at leap seconds, and nothing depends on the time zone of the computer.",
     ["inputs", "configurations"],
     "All instants from 1980 to 2060, particularly around every leap second; all computer time zones, with and without daylight saving.",
     "Tests convert one instant on one computer; leap second boundaries and time zones are invisible there.",
     ["resippy/utils/time_utils.py"],
     [("conversions", "resippy/utils/time_utils.py")],
     "property-based testing (Hypothesis): own leap second table as reference, round trip, monotonicity, modules imported under other time zones",
     SEARCH + "Inside an inserted leap second UTC timestamps repeat and only continuity is required.")

prop("C23", "Navigation data between records is interpolated in every quantity",
     "Navigation read from SBET or exterior orientation files answers each quantity at a time by linear interpolation between the neighbouring records, exactly at records, in the "
     "shape asked; headers, comments and incomplete lines do not shift or lose records.",
     ["inputs", "configurations"],
     "All record tables (lengths, spacing), all quantities, query times and shapes; file layouts with comments, blank and cut lines.",
     "Tests query a few times of one file; swapped quantities and shifted records look like plausible motion.",
     ["resippy/photogrammetry/nav/abstract_nav.py", "resippy/photogrammetry/nav/applanix_sbet_nav.py", "resippy/photogrammetry/nav/applanix_eo_nav.py", "resippy/photogrammetry/nav/nav_factory.py"],
     [("interpolation", "resippy/photogrammetry/nav/applanix_sbet_nav.py"), ("file parsing", "resippy/photogrammetry/nav/applanix_eo_nav.py")],
     "property-based testing (Hypothesis): the generated table as reference model",
     SEARCH + "pdal is not installed; a stand-in decodes the binary SBET records.")

prop("C24", "Pix4D files and Micasense images give each band its own camera and data",
     "Every value in a Pix4D collect's parameter files is read under its image and name, and a Micasense image has its files as bands in order, each with the pixels "
     "of its file, the camera parameters listed for it, and the time and place of its EXIF data.",
     ["inputs", "configurations"],
     "All collects (numbers of images, names, values, number formats, line endings), camera orders, arrays, EXIF times and places.",
     "Tests read one collect; last lines, name prefixes and per-band mix-ups need other ones.",
     ["resippy/utils/pix4d_utils.py", PC + "pix4d_point_calc.py", EO + "micasense/micasense_image.py", EO + "micasense/micasense_image_factory.py"],
     [("parameter files", "resippy/utils/pix4d_utils.py"), ("band files and cameras", EO + "micasense/micasense_image_factory.py")],
     "property-based testing (Hypothesis): generated collects as the reference model",
     SEARCH + "Files are laid out as Pix4D writes them; EXIF sub-second text has no leading zeros.")

prop("C25", "A simulated camera image shows the base map where each pixel looks",
     "Every pixel of an image simulated from a base map shows the base map's value where the pixel's ray meets the ground, for the pose, boresight, detector and units "
     "described and a base map in any CRS, and zero past the map's edges; the image's camera sees those places in those pixels.",
     ["inputs", "configurations", "histories"],
     "All cameras, boresights, rotation orders, units, poses (several per simulator), base map CRSs, sizes and data types.",
     "No test simulates an image; registration, unit and CRS errors leave a plausible picture.",
     ["resippy/utils/physical_camera_simulator.py"],
     [("simulation", "resippy/utils/physical_camera_simulator.py")],
     "property-based testing (Hypothesis): base maps sloping over the ground, judged by a reference camera",
     SEARCH + "Judged to about one base-map pixel; the ground is at height zero.")

prop("C26", "CRS descriptions, local projections and geometry transforms keep places in place",
     "A projection made from a WKT description places points where that CRS does, in its units. The local UTM projection of a place is its standard zone and hemisphere. Reprojecting "
     "a geometry transforms every vertex and keeps its parts, reversibly; shifts by metres add up and undo each other; bounds become the box with these bounds.",
     ["inputs", "configurations"],
     "All CRSs without datum shift (projection families, parameters, units), all places between 80 S and 84 N, all kinds of geometries.",
     "Tests build one projection; units, hemispheres, zone exceptions and other families are not reached.",
     ["resippy/utils/proj_utils.py", "resippy/utils/photogrammetry_utils.py", "resippy/utils/geom_utils.py"],
     [("projections from descriptions", "resippy/utils/proj_utils.py:wkt_to_proj"), ("local UTM", "resippy/utils/proj_utils.py:decimal_degrees_to_local_utm_proj"),
      ("geometries", "resippy/utils/photogrammetry_utils.py:reproject_geometry")],
     "property-based testing (Hypothesis): differential against pyproj CRS objects, geodesics and closed-form web Mercator; round trips",
     SEARCH + "pyproj's transformers are trusted.")

prop("C27", "Text, file, table and list helpers keep every entry, whatever the names",
     "Lines written to a file read back, whatever their line endings elsewhere; files and folders of a directory are listed completely by extension and beginning, whatever the directory's name; "
     "tables read as one column per header; splitting tuples into lists and joining them keeps every value; names become snake case word by word.",
     ["inputs"],
     "All lists of lines, directory contents and names, tables (delimiters, quoting, empty), tuples of any types.",
     "Tests do not touch these helpers except in passing; special names, empty lists and mixed types break them.",
     ["resippy/utils/file_utils.py", "resippy/utils/string_utils.py", "resippy/utils/csv_utils.py", "resippy/utils/numpy_and_array_utils.py"],
     [("listing files", "resippy/utils/file_utils.py"), ("text", "resippy/utils/string_utils.py"), ("tables", "resippy/utils/csv_utils.py"), ("lists", "resippy/utils/numpy_and_array_utils.py")],
     "property-based testing (Hypothesis): round trips and direct models over generated directories, files and lists",
     SEARCH + "Hidden files are left open; tables are rectangular.")

prop("C28", "Image similarity and point masks follow their definitions",
     "The mutual-information similarity of two images is the sum over their joint grey-value histogram: symmetric, unchanged by a common rearrangement of pixels or by a linear change of grey values, "
     "finite, and never larger than an image's similarity with itself. The locations of a colour in a mask image are exactly its pixels, by label.",
     ["inputs", "configurations"],
     "All pairs of finite grey images (types, sizes, numbers of bins, constant images, values on bin edges); all mask images, colours and transparencies.",
     "Tests compute one similarity and never check it; binning differences need particular types and values.",
     [IU + "image_registration.py", IU + "image_mask_utils.py"],
     [("mutual information", IU + "image_registration.py"), ("point masks", IU + "image_mask_utils.py")],
     "property-based testing (Hypothesis): differential against counted histograms; metamorphic relations; pixel-by-pixel model of masks",
     SEARCH + "The exact value is checked where grey values keep away from bin edges, the relations everywhere.")

prop("C29", "Chip scores are the model's answers for each chip's own pixels, in order",
     "Scoring an image asks the model once for each chip of the image, with that chip's pixels resized to the model's input and normalised as asked, transparency removed; scores and chip places are in the same order, "
     "and the score of a named thing is that of its label.",
     ["inputs", "configurations"],
     "All image and chip sizes, overlaps, input sizes, normalisations, label lists, with and without progress ledger.",
     "No test can run this without keras; the pairing of scores with places must hold for every layout.",
     ["resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py", IU + "image_chipper.py"],
     [("chip scoring", "resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py:chip_and_score_image")],
     "property-based testing (Hypothesis): recording stand-in models; direct indexing of the image as reference",
     SEARCH + "keras is not installed; stand-ins replace its two imported names.")

prop("C30", "Training sees every chip and keeps the network of lowest validation loss",
     "In every epoch of a training run each image of the training folders is seen once, resized, rescaled and flipped only as asked, with its folder's class, and every image of the validation folders, never flipped, judges the network. "
     "The network written is that of the epoch with the lowest validation loss, trained from the weights given, with frozen layers unchanged; the labels written are the classes in the order of the network's outputs.",
     ["inputs", "configurations", "histories"],
     "All numbers of classes, images and epochs, batch sizes, class names, losses and accuracies per epoch, frozen and added layers, start weights, file names.",
     "No test can run this without keras; which epoch is kept depends on the whole history of losses.",
     ["resippy/image_recognition/neural_net_model_training/keras_model_training.py"],
     [("training", "resippy/image_recognition/neural_net_model_training/keras_model_training.py:train_model"), ("image generators", "resippy/image_recognition/neural_net_model_training/keras_model_training.py:setup_train_and_val_image_generators")],
     "property-based testing (Hypothesis): a functional stand-in of keras with scripted losses; folders of generated chips; model of what must be seen and kept",
     SEARCH + "keras and tensorflow are not installed; the stand-in implements their documented meaning of generators, checkpoints, layers and fitting.")

prop("C31", "Map tiles show the image as it is, in web Mercator",
     "Map tiles asked for from a map image are cut from that image's own pixels as they are at the time, edits in memory included, at its place, reprojected to web Mercator, "
     "whether it came from a file or from memory and whatever images were tiled before; the image itself is unchanged.",
     ["inputs", "histories"],
     "All map images (types, sizes, bands, CRS, no-data, in memory, read or on disk), sequences of edits and requests over several images.",
     "No test can run this without gdal2tiles; leftovers of an earlier image only show with a second one.",
     [EO + "geotiff/geotiff_image.py"],
     [("map tiles", EO + "geotiff/geotiff_image.py:create_map_tiles")],
     "property-based testing (Hypothesis): recording stand-in of gdal2tiles; differential against GDAL's own reprojection; sequences of edits and requests",
     SEARCH + "gdal2tiles is not installed; the stand-in opens the file it is given as gdal2tiles does. The no-data value is not judged for real-valued images.")
