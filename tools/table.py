IN = ["inputs"]
prop("P01", "Affine georeferencing is exact in both directions for any CRS",
     "For an image georeferenced by an affine transform in any supported coordinate system (geographic or projected, any axis order, north-up, rotated or sheared, any unit), the location reported for a pixel is that transform followed by conversion to WGS84 longitude and latitude in radians, with the elevation taken from the terrain model when one is given. Converting a location back to a pixel is the inverse of the same mapping, so the two directions agree to a small fraction of a pixel everywhere the CRS is valid.",
     IN, "every geotransform, every CRS, every pixel including fractional ones and ones outside the raster",
     "the tests sample two geotransforms at a couple of pixels with loose tolerances",
     [P + "gdal_sensor_model.py", G + "gdal_sensor_model_builder.py"],
     [("affine image_to_world / world_to_image", P + "gdal_sensor_model.py"), ("geotransform model construction", G + "gdal_sensor_model_builder.py")],
     "differential oracle (independent affine + PROJ evaluation) over monitored calls on generated rasters",
     "Every observed conversion is compared with an independent evaluation; trusts PROJ.")
prop("P02", "Tie-point georeferencing reproduces the tie points, both directions",
     "An image georeferenced only by corner or ground control points maps each of those pixels to its ground location and back to within a small fraction of a pixel, and maps every other pixel by the projective transform those points determine. Converting pixel to ground and back returns the same pixel everywhere in the image, also across the antimeridian, and the elevation comes from the terrain model when one is given.",
     IN, "every set of at least four tie points in general position, in any order, and every pixel",
     "the tests check one or two control-point sets",
     [P + "projective_sensor_model.py", P + "transforms.py", G + "gdal_sensor_model_builder.py", G + "projective_sensor_model_builder.py"],
     [("projective fit", P + "transforms.py"), ("projective camera", P + "projective_sensor_model.py"), ("GCP and corner-coordinate record parsing", G + "gdal_sensor_model_builder.py")],
     "metamorphic + exact-map oracle over monitored conversions of generated tie-point sets",
     "The exact projective map behind each generated set decides every conversion.")
prop("P03", "RPC cameras follow the RPC00B equations and invert them",
     "For an image carrying rational polynomial coefficients, projecting a ground location gives the pixel defined by the RPC00B polynomial equations with the coefficients, offsets and scales in the metadata. Locating a pixel gives a ground location, on the terrain surface supplied or on the camera's reference height otherwise, that projects back onto that pixel within about a pixel wherever the search is started, also across the antimeridian.",
     IN, "every well-conditioned coefficient set, every ground location near the footprint, every pixel, any terrain and search hint",
     "the tests evaluate one camera at a handful of points",
     [P + "rpc_sensor_model.py", G + "rpc_sensor_model_builder.py"],
     [("polynomial evaluation and inverse search", P + "rpc_sensor_model.py"), ("coefficient parsing", G + "rpc_sensor_model_builder.py")],
     "differential oracle (independent RPC00B evaluation) and inverse-residual monitor",
     "Projections compared exactly; inverse judged by residual through the reference.")
prop("P04", "RSM cameras follow the replacement-sensor equations and invert them",
     "For an image carrying a replacement sensor model with polynomial sections, projecting a ground location gives the pixel defined by the published equations: the location is expressed in the ground domain's own coordinate form, normalised, evaluated as a ratio of polynomials, and for multi-section models evaluated with the section that the low-order polynomial selects. Locating a pixel gives a ground location, on the supplied terrain or the domain's reference height otherwise, that projects back onto that pixel within about a pixel wherever the search is started.",
     IN, "every ground domain form, section grid, coefficient set, location and pixel",
     "the tests use a single camera of each form and few points",
     [P + "replacement_sensor_model.py", G + "rsm_sensor_model_builder.py"],
     [("ground domain conversion, section selection, polynomial and inverse", P + "replacement_sensor_model.py"), ("record parsing", G + "rsm_sensor_model_builder.py")],
     "differential oracle (independent RSM evaluation) and inverse-residual monitor",
     "Projections compared with an independent evaluation; rectangular domains away from the antimeridian.")
prop("P07", "Chips and composite cameras agree with the camera they wrap",
     "A camera for a chip returns for every chip pixel exactly what the full-image camera returns for the corresponding full-image pixel, and vice versa, for any offset, magnification or orientation of the chip. A composite camera returns the accurate camera's projection and, for pixel to ground, the accurate camera's answer after starting its search from the approximate one; terrain models and caller options reach the wrapped cameras and are never modified.",
     IN, "every chip geometry, pixel, terrain model and option set",
     "the tests use one chip and one composite with fixed numbers",
     [P + "chipped_image_sensor_model.py", P + "composite_sensor_model.py"],
     [("chip to full image transform", P + "chipped_image_sensor_model.py"), ("delegation", P + "composite_sensor_model.py")],
     "recording stand-in camera: trace of delegated calls compared with the exact chip mapping",
     "A recording camera observes exactly what is asked of it; both directions compared.")
prop("P09", "Terrain heights come from the right elevation posts in every query history",
     "The elevation reported for a location is the bilinear interpolation of the posts of the tile that covers it, whatever queries came before and however small the tile cache is. Locations with no tile are left at their given elevation, and the regional summary reports the covering tile's true minimum, maximum, no-data value and post spacing.",
     ["inputs", "histories", "fault_sequences"], "every tile layout, raster and declared projection, every sequence of queries, every cache size, missing, unreadable or damaged tiles",
     "the tests read one tile that is not even present in this checkout",
     [P + "digital_elevation_model.py", P + "elevation_model.py", G + "gdal_dem_tile_factory.py"],
     [("cached tile lookup and interpolation", P + "digital_elevation_model.py"), ("tile reading, georeferencing and statistics", G + "gdal_dem_tile_factory.py")],
     "history monitor with a flat reference model (posts + bilinear) over recorded query sequences, with missing-tile faults",
     "One known finding (voids reported as heights) is listed and matched by key.")
prop("P10", "Each location is assigned the one elevation tile that contains it",
     "For every longitude and latitude the tile name reported is the one for the one-degree cell that contains the location, using the south-west corner with correct hemisphere letters and zero padding in the configured prefix and version layout; distinct cells never share a name. Locations outside the configured coverage have no tile, and pattern-based tile sets render the location with the requested pattern.",
     ["inputs", "configurations"], "every location including cell edges, both hemispheres, poles and the antimeridian; every prefix, version, suffix and coverage setting",
     "the tests try a handful of locations",
     [P + "srtm_dem_tile_set.py", P + "generic_dem_tile_set.py", P + "coordinates.py"],
     [("SRTM naming", P + "srtm_dem_tile_set.py"), ("pattern naming", P + "generic_dem_tile_set.py")],
     "reference-model oracle over generated locations and configurations",
     "Integer-cell reference; locations within 1e-9 degrees of a boundary may go to either neighbour.")
prop("P11", "Geodetic and geocentric coordinates convert exactly and invert",
     "Converting a geodetic location to geocentric coordinates follows the WGS84 ellipsoid, and converting back returns the same longitude, latitude and height for every location on, below or above the Earth's surface, including the poles and the antimeridian. Coordinate objects keep the values they were built from and comparisons, copies and component access are consistent with those values.",
     IN, "every location including poles, equator and antimeridian, heights from -10 km to 40,000 km",
     "the tests convert three locations",
     [P + "coordinates.py"], [("conversion functions", P + "coordinates.py")],
     "differential oracle (closed-form WGS84) and round-trip monitor",
     "Sub-millimetre agreement demanded at all sampled locations.")
prop("P12", "Text renderings of a location denote that location",
     "Rendering a location as text in any supported pattern produces a well-formed string of the documented width that, read back, denotes the same location to within the resolution of the pattern. Minutes and seconds are always below sixty, hemisphere letters match the signs, and literal characters are reproduced.",
     IN, "every location, every pattern including custom combinations of fields",
     "the tests render a few positions",
     [P + "coordinates.py"], [("format directives", P + "coordinates.py")],
     "parse-back oracle over generated locations and patterns",
     "One known finding (unsigned decimal degrees pinned by a unit test) is listed.")
prop("P05", "SICD images are located by their collection geometry",
     "For a SICD complex SAR image of any collection type, image formation algorithm, grid and side of track, the ground location reported for a pixel lies on the requested surface and has exactly the range and range-rate the product's metadata assigns to that pixel, on the side of the track that was imaged. Projecting a ground location gives the pixel whose range and range-rate it has, so pixel to ground and back returns the same pixel and the scene centre pixel maps to the scene centre point.",
     IN, "every collection geometry, grid type, chip of the full image, pixel and surface height",
     "the tests check three sample products at one or two pixels",
     [P + "sicd_sensor_model.py", G + "sicd_sensor_model_builder.py"],
     [("COA projection sets, R/Rdot to ground plane and HAE, scene to image", P + "sicd_sensor_model.py"), ("metadata to model", G + "sicd_sensor_model_builder.py")],
     "differential oracle (independent range/range-rate geometry) and round-trip monitor on generated SICD products",
     "One known finding (off-plane projection pinned by a unit test) is matched by key.")
prop("P06", "SIDD images are located by their measurement geometry",
     "For a SIDD derived SAR product in any supported projection, full image or chip, the ground location reported for a pixel is the one the product's measurement metadata assigns to it: its range and range-rate on the imaged side of the track and the requested surface. Chip pixels get the location of the original-image pixel they were cut from, the reference point maps to the reference pixel, and projecting to the image is the inverse of the same mapping.",
     IN, "every product geometry, sample spacing, time polynomial, chip placement and scale, pixel and surface height",
     "the tests check one product at its reference point",
     [P + "sicd_sensor_model.py", G + "sidd_sensor_model_builder.py", P + "chipped_image_sensor_model.py"],
     [("planar grid to projection set", P + "sicd_sensor_model.py"), ("metadata to model including chips", G + "sidd_sensor_model_builder.py")],
     "differential oracle (independent range/range-rate geometry) and round-trip monitor on generated SIDD products",
     "One known finding (off-plane projection pinned by a unit test) is matched by key.")
prop("P08", "Every camera given terrain answers with a point on that terrain",
     "Whenever an elevation model is supplied, pixel to ground returns a location whose height equals the terrain height there to within the documented search accuracy, still consistent with the camera's viewing geometry, and of several intersections the one the sensor sees. Where the elevation model has no data the camera falls back to its own default surface rather than failing, and the same call always gives the same answer.",
     ["inputs", "fault_sequences"], "every camera type, every terrain surface (flat, sloping, stepped, partly missing), every pixel",
     "the tests use a constant elevation and single pixels",
     [P + "sicd_sensor_model.py", P + "rpc_sensor_model.py", P + "replacement_sensor_model.py", P + "projective_sensor_model.py", P + "gdal_sensor_model.py", P + "elevation_model.py"],
     [("R/Rdot to DEM surface", P + "sicd_sensor_model.py"), ("terrain constrained inverse", P + "rpc_sensor_model.py")],
     "surface-residual and viewing-geometry oracles over monitored conversions on synthetic terrain",
     "Terrain is synthetic; layover is judged against a dense contour scan.")
prop("P13", "Images get the most accurate camera their metadata supports",
     "The camera built for an image is determined only by the metadata present and the model types the caller selected: the most accurate supported camera is used, wrapped with an approximate camera for its starting point when one is available and adjusted for chip information when present. The answers it gives equal those of the camera described by that metadata in both directions, order of records and unrelated records do not matter, and without usable metadata no camera is returned.",
     ["inputs", "configurations"], "every combination of geotransform, control points, RPC, RSM, SICD, SIDD, corner and chip records, every selection of model types, any record order",
     "the tests build a few fixed combinations",
     [G + "sensor_model_factory.py", G + "gdal_utils.py", G + "rpc_sensor_model_builder.py", G + "rsm_sensor_model_builder.py", G + "sicd_sensor_model_builder.py", G + "sidd_sensor_model_builder.py", G + "projective_sensor_model_builder.py", G + "gdal_sensor_model_builder.py", G + "xmltre_utils.py"],
     [("selection and wrapping", G + "sensor_model_factory.py"), ("dataset loading", G + "gdal_utils.py"), ("record parsing", G + "xmltre_utils.py")],
     "reference-model oracle: independent cameras for each generated metadata bundle decide which camera must answer",
     "Reference cameras are independent re-implementations; both in-memory metadata and real NITF/GeoTIFF files are loaded.")
prop("P14", "Damaged metadata never yields a crash or a wrong camera",
     "When some of an image's metadata is missing, truncated or malformed, building its camera still succeeds using whatever remaining metadata is usable, as if the damaged record were absent, and returns no camera if nothing usable is left. A camera built from partly damaged metadata never silently returns locations that disagree with the intact metadata.",
     ["inputs", "fault_sequences"], "every single fault (removal, truncation, non-numeric or empty value, undecodable XML) in every record of every metadata combination",
     "the tests only use intact metadata",
     [G + "sensor_model_factory.py", G + "rpc_sensor_model_builder.py", G + "rsm_sensor_model_builder.py", G + "sicd_sensor_model_builder.py", G + "sidd_sensor_model_builder.py", G + "projective_sensor_model_builder.py", G + "gdal_sensor_model_builder.py", G + "xmltre_utils.py"],
     [("fallback between records", G + "sensor_model_factory.py"), ("value parsing", G + "xmltre_utils.py")],
     "fault injection into generated metadata with a fallback-consistency oracle (answers must equal those of an allowed fallback)",
     "Faults that leave a record complete and numeric but different are outside (they are indistinguishable from other valid metadata).")
prop("P26", "Suggested display ranges follow the histogram they were computed from",
     "The dynamic range parameters computed from a pixel histogram report the values of the first and last occupied buckets as the actual range, and a suggested range that excludes the requested fractions of outliers, widened by the configured weights, never inverted or empty when several values are present and never outside the actual range. Scaling all counts or shifting all pixel values scales or shifts the result accordingly, and the caller's histogram is unchanged.",
     IN, "every histogram, bucket value range, percentages and weights",
     "the tests evaluate one histogram",
     [G + "dynamic_range_adjustment.py"], [("percentile range", G + "dynamic_range_adjustment.py")],
     "reference-model oracle (percentile definition) plus metamorphic monitors over generated histograms",
     "Rounding ties of a percentile are accepted either way.")
prop("P17", "A tile holds exactly the source pixels of its window",
     "A tile cut from an image decodes, on its own, to the pixels of the requested window of every band, in the source pixel type and the requested format and compression: identical for lossless encodings, close for lossy ones, zero-filled where the window leaves the image. A requested output size resamples that same window, and a window that is impossible or cannot be read, or a pixel type the format cannot store, gives no tile instead of a wrong one.",
     ["inputs", "configurations"], "every image size, pixel type, band count, storage layout, window including edges and single pixels, output size, tile format and compression",
     "the tile factory tests need image files that are not in the checkout, and check sizes rather than pixels",
     [I + "gdal_tile_factory.py", G + "gdal_utils.py"],
     [("create_encoded_tile", I + "gdal_tile_factory.py"), ("translate options", I + "gdal_tile_factory.py")],
     "pixel-exact oracle: each encoded tile is decoded from its bytes alone and compared with the source array",
     "Lossy encodings judged on smooth pictures with generous error limits.")
prop("P18", "Range adjustment maps pixel values linearly and the same in every tile",
     "Converted tiles map pixel values to the output type by one increasing linear function per band, clamped at the ends, that is the same in every tile of the image: the whole source type range without adjustment, the band's own minimum and maximum for min-max, and the band's outlier-excluding suggested range for dynamic range adjustment. Bands do not influence each other, and constant, two-valued or very wide bands are handled.",
     ["inputs", "configurations"], "every source and output pixel type, value distribution, adjustment and window",
     "no test looks at adjusted pixel values",
     [G + "gdal_utils.py", G + "dynamic_range_adjustment.py", I + "gdal_tile_factory.py"],
     [("get_type_and_scales", G + "gdal_utils.py"), ("suggested range", G + "dynamic_range_adjustment.py"), ("create_encoded_tile", I + "gdal_tile_factory.py")],
     "reference-model oracle on decoded tiles plus function/order/cross-tile consistency monitors",
     "Rows are permutations of one multiset so sampled statistics are exact; floating point buckets judged to 2.5 buckets.")
prop("P20", "SAR tiles carry metadata that locates them where they were cut",
     "A NITF tile cut from a SICD or SIDD image carries an updated copy of the product metadata: opened on its own, its camera agrees with the source image's camera at the pixels the tile was cut from, for every window, output size and chain of tiles cut from tiles, and whatever tiles were cut before. Everything in the metadata document and its container header that does not describe the window, size or creation of the chip is preserved, and scaling a SICD is refused.",
     ["inputs", "histories"], "every product, window, output size, order of tiles cut from one factory and generation of chips of chips",
     "the tests cut one chip per product and compare a few element values",
     [I + "gdal_tile_factory.py", I + "sicd_updater.py", I + "sidd_updater.py", G + "nitf_des_accessor.py"],
     [("SICD chip metadata", I + "sicd_updater.py"), ("SIDD chip metadata", I + "sidd_updater.py"), ("tile DES", I + "gdal_tile_factory.py"), ("DES header rendering", G + "nitf_des_accessor.py")],
     "camera-agreement oracle on decoded tiles plus document and header preservation monitors over tile histories",
     "Products are generated; tiles of at least 2x2 pixels.")
prop("P19", "Tiles carry georeferencing that agrees with the image they were cut from",
     "A tile that can be located at all from its own bytes is located where it was cut from: the camera loaded from an encoded tile agrees with the source image's camera at the corresponding pixel, for every window, output size, projection and rotation, to the precision of the georeferencing its format stores. GeoTIFF tiles of affine and tie-point images and NITF tiles of RPC images keep a camera, and NITF tiles cut with a sensor model carry its locations for their four corners as well formed corner coordinates.",
     ["inputs", "configurations"], "every source camera, CRS, rotation, pixel size, window, output size and tile format",
     "the tests do not compare locations in tiles with locations in the source",
     [I + "gdal_tile_factory.py", P + "coordinates.py", G + "gdal_utils.py"],
     [("corner coordinates of tiles", I + "gdal_tile_factory.py"), ("DMS text", P + "coordinates.py"), ("translate options", I + "gdal_tile_factory.py")],
     "camera-agreement oracle: each encoded tile is loaded from its bytes and its camera compared with the source camera",
     "One known finding (chip record lost next to a polynomial camera) is matched by key; corner coordinates judged to 1 arc second.")
prop("P21", "Tile requests are isolated from each other and from their source",
     "What a caller gets for a tile request depends only on the source image, the factory's settings and the request: repeating a request later, after any other successful, refused or failed requests, or with a new factory, or while other threads request tiles with datasets and factories of their own, gives the same pixels and metadata. No request leaves files behind in memory or on disk, modifies the source file, the state of the open dataset or the arguments it was given.",
     ["histories", "fault_sequences"], "every sequence of tile and map tile requests, including refused and failing ones, on every kind of source",
     "each test makes a single request from a new factory",
     [I + "gdal_tile_factory.py", I + "sicd_updater.py", I + "sidd_updater.py"],
     [("create_encoded_tile", I + "gdal_tile_factory.py"), ("metadata updaters", I + "sicd_updater.py")],
     "history monitor: repeated, reference and concurrent requests compared, residue and source state checked after every request, with failing requests injected",
     "Time stamps are not compared; statistics sidecar files are GDAL's own.")
prop("P22", "Map tiles show each place where it is",
     "A map tile created for a geographic area shows at every pixel the part of the image that the camera places at that pixel's location, for any tile shape, camera, image orientation, overview and elevation at the image centre, with colours in band order and brightness following the requested range adjustment over the band's whole range, saturating where a tile cannot hold the values. Pixels outside the image are transparent, pixels with data inside it are opaque, and an area that does not overlap the image, wherever it is on Earth, or that the camera cannot locate or the file cannot deliver, gives no tile rather than a failure.",
     ["inputs", "configurations"], "every camera, image size, pixel type and band count, overview set, range adjustment, area and tile shape",
     "the tests only check that a square tile has the requested size",
     [I + "gdal_tile_factory.py", I + "sar_complex_imageop.py"],
     [("create_orthophoto_tile", I + "gdal_tile_factory.py"), ("display normalization", I + "gdal_tile_factory.py")],
     "position-encoding oracle: every decoded tile pixel reports the source position it was taken from, compared with an independent camera",
     "Half-pixel sampling conventions and the documented 3x3 grid approximation are granted.")
prop("P23", "Map tiles partition the Web Mercator square and every location has its tile",
     "The tiles of a zoom level of the well known tile set cover the Web Mercator square without gaps or overlaps, each with the bounds given by the spherical Mercator formula and the set's tile size, and the four tiles below a tile fill it exactly. Every location on Earth is assigned an existing tile whose bounds contain it (the outermost row beyond the grid's latitudes), and the limits reported for an area are the smallest range of tiles containing all its points.",
     IN, "every zoom level, tile and location including tile edges, the poles and the antimeridian",
     "the tests check three tiles and one location",
     [I + "map_tileset_wmq.py", I + "map_tileset.py", I + "map_tileset_factory.py"],
     [("tile bounds and location lookup", I + "map_tileset_wmq.py"), ("limits", I + "map_tileset.py")],
     "reference-model oracle (spherical Mercator grid) plus partition, nesting and inverse monitors",
     "One known finding (row numbering direction, pinned by a unit test) is matched by key.")
prop("P24", "SAR pixels are converted and displayed by the published equations",
     "Complex SAR pixels of every supported pixel type, with or without an amplitude table, are converted to complex values, power and decibels as the SICD standard defines, without overflow. The histogram stretch and quarter power images are 8-bit values that grow with the signal according to the published formulas with the given scale factor and mean; they do not depend on the signal's units, missing pixels do not influence others, an image without signal is black, and the input pixels are never modified.",
     IN, "every pixel type, amplitude table, image content including empty, saturated and missing pixels, every scale factor and mean",
     "the tests look at the extremes of three sample images that are not in the checkout",
     [I + "sar_complex_imageop.py"], [("pixel conversion and display", I + "sar_complex_imageop.py")],
     "differential oracle (double precision evaluation of the equations) plus unit-independence and missing-pixel monitors",
     "32-bit accuracy granted.")
prop("P29", "Features are geolocated where their pixels are",
     "Geolocating a batch of features gives every feature that has an image geometry a geographic geometry of the same type and structure whose every coordinate is where the camera, with the terrain model if any, places that pixel, within the error of the documented approximation grid over the batch; image boxes become geographic boxes and centers are added, also for images crossing the antimeridian and boxes larger than the geometry. Features without image geometry, or with an empty one, and all other properties are left unchanged, whatever else is in the batch, repeating the operation changes nothing, and nothing is printed.",
     IN, "every camera, terrain, batch of features of any geometry type or combination of image properties, and grid size",
     "the tests use a single camera and single-feature batches",
     [F + "geolocation.py"], [("grid interpolation and geometry conversion", F + "geolocation.py")],
     "differential oracle: each written coordinate compared with a direct camera evaluation, tolerance from the camera's measured curvature",
     "Approximation grid and 6-decimal GeoJSON rounding granted.")
prop("P30", "Image geometry properties are read by priority and written without side effects",
     "A feature's image geometry is read from the first of its known properties in the documented priority order, deprecated ones only if allowed, independent of property order; features without any have none. A geometry or box that is set is read back exactly, updating existing properties rewrites exactly those the feature already has and the accessor may touch, and no other property, nor the geometry passed in, changes.",
     IN, "every combination of properties, geometry types and settings",
     "the tests check one feature per property",
     [F + "imaged_feature_property_accessor.py"], [("lookup, set and update", F + "imaged_feature_property_accessor.py")],
     "reference-model oracle (independent reading of the properties) with side-effect monitors",
     "Deprecated properties only receive geometry types they can hold.")
prop("P31", "The feature index answers like a scan over all features",
     "Querying the index for features intersecting a geometry returns exactly the features whose image geometry (or, if requested, geographic geometry) intersects it, and the nearest query returns exactly the features at the smallest distance within the limit, including ties and none at all if they are farther. Features without a geometry are never returned, the returned features are the indexed ones, and nothing is modified.",
     IN, "every feature collection including empty ones and ones with unlocated features, every query geometry and distance limit",
     "the tests query nine boxes three times, and never the geographic geometries",
     [F + "feature_index.py"], [("STR tree index", F + "feature_index.py")],
     "brute-force oracle over recorded queries",
     "Borderline contacts within 1e-9 may be decided either way.")
prop("P32", "SICD and SIDD documents survive reading and writing",
     "Every SICD 1.2.1 and 1.3.0 and SIDD 1.0, 2.0 and 3.0 document that follows the published schema, however it is spelled, is read into the model of its version, with every element and attribute under its name, as a value of its declared type. Writing the model gives a document with the same elements in the same order, attributes and values, and reading that again gives equal objects. The metadata updater for image chips changes only the elements that describe the chip.",
     IN, "every document valid under the five schemas: every optional element, choice, repetition, enumeration value and spelling of values",
     "the tests read a handful of sample documents and look at few values",
     [S + "formats/sicd/models/sicd_v1_2_1.py", S + "formats/sicd/models/sicd_v1_3_0.py", S + "formats/sidd/models/sidd_v1_0_0.py", S + "formats/sidd/models/sidd_v2_0_0.py", S + "formats/sidd/models/sidd_v3_0_0.py", S + "formats/sidd/models/sicommon_types.py", S + "formats/sidd/models/sfa.py", I + "sicd_updater.py", I + "sidd_updater.py"],
     [("document models", S + "formats"), ("chip metadata", I + "sicd_updater.py")],
     "round-trip oracle on documents generated from the XML schemas, with declaration and enumeration coverage recorded",
     "Documents are drawn from the schemas in the repository; coverage of declarations is recorded.")
prop("P28", "Scoped GDAL configuration ends with its scope",
     "Inside a GDALConfigEnv scope every option of the environment, including temporary AWS credentials, has its value for all threads. When the scope is left, normally or by an exception, which is passed on, exactly these options are as they were when the scope was entered: set to the previous value, or unset, so that environment variables apply again. This holds for nested scopes and for the same object entered repeatedly, and no other option ever changes.",
     ["schedules", "fault_sequences"], "every nesting and sequence of scopes, objects, option values, changes inside a scope and exceptions",
     "the only test enters one scope once",
     [G + "gdal_config.py"], [("enter and exit", G + "gdal_config.py")],
     "reference-model oracle: after every step of random scope programs all options are compared with a model",
     "Scopes are left in reverse order of entry.")
prop("P27", "NITF data extension segments are found and extracted exactly",
     "For every NITF file GDAL can read, looking up data extension segments by name returns exactly the segments with that name, in file order, over all metadata documents. The extracted header holds every header field and the user subheader in its fixed position and width, so that writing it with the same data to a new file gives the same segment again. Extracted XML is the data of the segment, in either of the two representations GDAL versions use; data that is missing or not UTF-8 text gives none, and a missing field is reported as a ValueError.",
     IN, "every number and order of segments, header field contents, user subheader and data",
     "the tests use two recorded metadata documents",
     [G + "nitf_des_accessor.py"], [("lookup and extraction", G + "nitf_des_accessor.py")],
     "round-trip oracle on NITF files written and read by GDAL, plus documents in the representation of later GDAL versions",
     "TRE_OVERFLOW segments excluded.")

prop("P15", "A camera's answer depends only on the question",
     "What a camera answers for a pixel or location depends only on the image's metadata and on the location, terrain and options it is asked about. It does not depend on what this or another camera was asked before, nor on other threads using the same camera at the same time, nor on what the caller later does with the metadata, coordinates and answers it passed or received. Asking changes none of the caller's coordinates and options.",
     ["inputs", "histories", "schedules"], "every kind of camera, every history of questions to it and to other cameras, hopeless questions included, and every interleaving of threads sharing it",
     "the tests ask each camera a few questions once, in one thread",
     [P + "sensor_model.py", P + "rpc_sensor_model.py", P + "replacement_sensor_model.py", P + "sicd_sensor_model.py", P + "gdal_sensor_model.py", P + "projective_sensor_model.py", P + "chipped_image_sensor_model.py", P + "composite_sensor_model.py"],
     [("stateless evaluation", P + "sensor_model.py"), ("copied metadata", G + "sensor_model_factory.py")],
     "history and thread-interleaving monitor: every answer compared with that of a fresh camera asked the question once",
     "Terrain models in these histories are pure functions; cached elevation tiles are P09.")
prop("P16", "The format of an image is recognised from its content",
     "The format reported for an image file is that of its content, whatever the file is called: NITF, TIFF and JPEG images report exactly these names, and an image of any other format reports, in upper case, the extension of that format which its own file name carries, or that format's first extension if it carries none, or that it is unknown if the format has no extensions. Names of folders and letter case make no difference, and asking changes neither the file nor its folder.",
     IN, "every format GDAL reads, every file and folder name",
     "the tests check a handful of names against hand-made extension lists",
     [G + "gdal_utils.py"], [("extension lookup of the identified driver", G + "gdal_utils.py")],
     "content-versus-name oracle over files written in many formats under misleading names",
     "The driver that wrote each file, and that GDAL identifies it by, decides.")
