PBT = "property-based testing (proptest, shrinking) against "
COMMON = " Sampled, not exhaustive; trusts proptest, rustc and the reference written in the harness."

prop("C01", "Unit conversion preserves the physical quantity",
     "Converting a value between two units the library relates (lengths, speeds, temperatures, pressures) gives the physically right value to within a tenth of a percent (temperatures to 0.01 degree), and converting back recovers it; a pair with no relation leaves the value unchanged. Switching a measurement, a swell or a swell summary through any sequence of unit systems always yields the unit that system uses for that dimension with the same physical quantity, leaves quantities without a counterpart (period, direction, energy) and missing values untouched, and applying the same system twice changes nothing more.",
     ["inputs", "histories"],
     "every ordered pair of units, every finite value, every sequence of unit-system changes",
     "No existing test converts a value between units at all; conversions are a 2-D table where each entry can be wrong on its own.",
     ["src/units/mod.rs", "src/dimensional_data.rs", "src/swell.rs"],
     [("Unit::convert / Unit::convert_system tables", "src/units/mod.rs"), ("UnitConvertible::to_units", "src/dimensional_data.rs, src/swell.rs")],
     PBT + "an independent physical-constants model, over unit pairs and histories of unit-system changes",
     "Every unit pair is covered many times over on values from 1e-6 to 1e6 and both signs, and histories up to 8 changes." + COMMON,
     ["Unit::convert", "UnitConvertible::to_units"])

prop("C02", "Unit labels and measurements survive text and JSON",
     "Every unit label the library prints parses back to the same unit regardless of letter case and surrounding blanks, and a label it does not know becomes the unknown unit. A measurement read from text holds exactly the number in the text or is missing when it is not a number, prints that value to one decimal with its unit (N/A when missing), and survives a trip through JSON, where it also carries its unit label. A swell prints as its height, period and direction, and a number that JSON gives as a number or as text reads as that number.",
     ["inputs"],
     "every unit, every casing/padding of its label, every numeric or non-numeric text",
     "One test serializes one value; labels, casing, missing values and directions are never read back.",
     ["src/units/mod.rs", "src/dimensional_data.rs"],
     [("From<&str> for Unit, Display for Unit", "src/units/mod.rs"), ("from_raw_data, Display, Serialize", "src/dimensional_data.rs")],
     PBT + "round-trip and formatting oracles",
     "All 20 units are covered in random casings; numbers are compared to Rust's own parser." + COMMON)

prop("C03", "Compass bearings and direction conventions are consistent",
     "Every whole bearing from 0 to 360 names the nearest of the 16 compass points, every compass name parses in any case, prints back and stands for its bearing to half a degree, and degrees, radians and text agree with one another (radians to the nearest degree). Inverting or flipping a bearing turns it by exactly 180 degrees, and two bearings are opposite exactly when they differ by 170 degrees or more around the circle. Normalizing a direction given as coming-from, going-towards or mathematical (counter-clockwise from east) always gives the compass bearing the waves come from.",
     ["inputs"],
     "all whole bearings and all pairs of them, all compass names, all radians in one turn, all three conventions",
     "No existing test looks at a bearing outside a couple of parsed rows; sector boundaries and wrap-around are where tables go wrong.",
     ["src/units/direction.rs", "src/units/cardinal_direction.rs"],
     [("CardinalDirection::from_degrees sector table", "src/units/cardinal_direction.rs"), ("DirectionConvention::normalize, flip, invert, is_opposite", "src/units/direction.rs")],
     "exhaustive enumeration of bearings and bearing pairs plus proptest over radians and text, against a nearest-point and unit-vector model",
     "Bearings -720..1080 and all 361x361 pairs are enumerated completely; radians and text are sampled." + COMMON)

prop("C05", "Places mean the same in every longitude and latitude convention",
     "A longitude may be written from -180 to 180 or from 0 to 360, and a southern latitude may also be written as itself plus 180; each can be turned into the other form and back without moving the place. The distance between two places is the great-circle distance (radius 6371 km or 3956 miles), is symmetric, zero to itself, satisfies the triangle inequality and does not depend on how the coordinates are written. A place lies within a bounding box exactly when its latitude lies between the south and north edges and its longitude lies on the eastward way from the west edge to the east edge, whichever convention either uses, including boxes across the meridian or the date line and boxes of a full turn. A location survives JSON.",
     ["inputs"],
     "every pair of places on the globe, every bounding box, all mixes of conventions",
     "Tests look at two or three fixed points in one convention; meridian, date line, equator and full-circle boxes are where longitude arithmetic fails.",
     ["src/location.rs"],
     [("Location::absolute_*/relative_*, normalize_*", "src/location.rs"), ("Location::distance", "src/location.rs"), ("Location::within_bbox", "src/location.rs")],
     PBT + "a unit-vector great-circle model and circular interval arithmetic",
     "Boxes lie on quarter degrees so that edges are exact; meridian, date line, equator and poles are over-represented." + COMMON,
     ["Location::distance", "Location::within_bbox"])

prop("C06", "Sunrise and sunset match the sun's position on that date",
     "For a place between 60 S and 60 N (either longitude convention) and any instant, the solar events are the sunrise and sunset of that calendar date at that place, within six minutes of the true solar geometry, expressed as UTC instants (so either may fall on the neighbouring UTC date); the time of day of the instant does not matter, and impossible coordinates give no events.",
     ["inputs"],
     "every place between the polar circles and every date from 1901 to 2099",
     "One test looks at one place and day; hemisphere, longitude sign and UTC-date effects are untested.",
     ["src/solar.rs"], [("calculate_solar_events", "src/solar.rs")],
     PBT + "an independent NOAA solar-position model",
     "Tolerance of 6 minutes covers the drift of the simple algorithm the library uses; places beyond 60 degrees are not claimed." + COMMON)

prop("C07", "Model run times are the run that is available at that moment",
     "Rounding an instant to a multiple of hours gives the latest instant not after it whose hour of the day is that multiple, at minute, second and nanosecond zero. The latest station, gridded and hourly model runs for an instant are the latest 6-hourly run at least 6 hours old, the latest 6-hourly run at least 5 hours old, and the latest hourly run at least 2 hours old, also across midnight, month, leap-day and year ends. The runs of a forecast collection over a window are exactly all six-hourly runs from the one at or before its start to the last not after its end, in order.",
     ["inputs"],
     "every instant and every window",
     "Tests try a few hand-picked times; the errors hide at midnight, month ends and window ends.",
     ["src/tools/date.rs"],
     [("round_to_nearest_multiple_hour", "src/tools/date.rs"), ("closest_gfs_model_*_datetime", "src/tools/date.rs"), ("gfs_model_fmrc_datetimes", "src/tools/date.rs")],
     PBT + "integer arithmetic on unix seconds",
     "Month ends, year ends and leap days are over-represented." + COMMON)

prop("C08", "Series helpers produce exact grids, orders, differences and packings",
     "linspace yields the asked number of evenly spaced values from the first bound to the last; argsort orders any data stably; diff gives successive differences with the first repeated; packing data into a number of levels is monotone, maps the minimum to 0 and the maximum to the top, and unpacking returns each value within one level below; minimum and maximum ignore missing values (NaN), and filling replaces exactly those.",
     ["inputs"],
     "every range, count and data series",
     "The tests sample one or two short arrays; ties, NaN and the ends of the range are not covered.",
     ["src/tools/linspace.rs", "src/tools/vector.rs"],
     [("linspace, DiscreteLinSpace", "src/tools/linspace.rs"), ("argsort, diff, bin, unbin, min_max, min_max_fill", "src/tools/vector.rs")],
     PBT + "direct reference computations and round trips",
     "Includes ties, negative values, NaN and single-element arrays." + COMMON)

prop("C09", "Cubic interpolation never overshoots the data",
     "The monotone cubic interpolator passes through every knot, stays between the two neighbouring values and monotone in every interval, is constant outside the data, reproduces straight lines, commutes with scaling the values (also by a negative factor) and with moving or stretching the axis, agrees with the published Fritsch-Carlson scheme (harmonic-mean slopes, radius-three limiter), and gives the same result for many points as one by one.",
     ["inputs"],
     "every strictly increasing set of knots and every evaluation point",
     "Tests check a handful of points on one curve; overshoot depends on irregular spacing and plateaus.",
     ["src/tools/interpolation.rs"], [("PchipInterpolator::new, interpolate, interpolate_many", "src/tools/interpolation.rs")],
     PBT + "shape invariants and an independent Fritsch-Carlson implementation",
     "Spacings vary over four orders of magnitude; plateaus, steps and spikes are built in." + COMMON)

prop("C10", "Circular interpolation is seamless at north",
     "Interpolating values given at sorted directions around the compass passes through every given direction, gives the same value at 0 and 360, stays between the values of the two neighbouring directions (also across north), does not depend on where the seam lies (turning all directions and the target together changes nothing), and agrees with monotone cubic interpolation of the periodic series.",
     ["inputs"],
     "every sorted set of one or more directions at least half a degree apart and every target bearing",
     "Only one layout is exercised by tests; the seam is where circular interpolation fails.",
     ["src/tools/interpolation.rs"], [("circular_pchip_interpolate", "src/tools/interpolation.rs")],
     PBT + "metamorphic rotation and a periodic reference",
     "1-16 directions, even or irregular, any offset." + COMMON)

prop("C11", "Regridding a spectrum keeps values and never invents energy",
     "Interpolating a directional spectrum onto another frequency and direction grid returns the source values at the source's own bins, zero below the source's lowest frequency, the values of its highest frequency above that, and never a negative value nor one outside the range of the source bins around the target; it treats directions around the circle without a seam and every target on its own, is labelled as coming-from at the target directions, does not depend on the convention the source is written in, and equals interpolating with the monotone scheme along the logarithm of frequency and then around the compass; scaling the source scales the result.",
     ["inputs"],
     "every source spectrum and every target grid",
     "The test compares one real spectrum at coarse tolerance; lowest/highest bins and the direction seam are not examined.",
     ["src/spectra.rs"], [("Spectra::interpolate_to_grid", "src/spectra.rs")],
     PBT + "an independent separable reference and metamorphic relations",
     "2-14 frequencies by 2-18 directions; target grids reach outside the source." + COMMON)

prop("C12", "Spectral integrals, moments and mean directions are consistent",
     "For any spectrum, bandwidths are the successive differences of the grid (the first repeated), the one-dimensional spectra are the energies summed over the other axis times its widths so that the variance along both axes agrees, moments are the weighted sums of their definition, directions in degrees and radians are the bearing waves come from under each convention, the mean direction per frequency is the energy-weighted vector mean (turning with the spectrum), bin indices invert, the energy range is the minimum and maximum, and the spectrum survives JSON.",
     ["inputs"],
     "every spectrum with any grid and any of the three direction conventions",
     "Tests look at a single buoy file in one convention.",
     ["src/spectra.rs"],
     [("Spectra::dk, dth, oned, mom_f, mom_d, mean_wave_direction_f", "src/spectra.rs"), ("direction_deg/direction_rad conventions", "src/spectra.rs")],
     PBT + "direct sums, vector means and JSON round trips",
     "2-20 frequencies by 2-24 directions, even or irregular." + COMMON)

prop("C13", "Points inside a spectrum interpolate between the bins around them",
     "Linear and bilinear interpolation are exact at the given points, exact for (bi)linear data and never leave the range of the corners. A fractional frequency or direction index names the position linearly between the two bins around it (the end bins beyond the grid). The bins around a frequency are the two that enclose it, or the end bin twice outside the grid; those around a direction enclose it on the circle. The interpolated energy of a point is bilinear in the four bins around it, across the direction seam too, and that of the end bins beyond the frequencies.",
     ["inputs"],
     "every spectrum and every frequency and direction",
     "The tests sample one or two points away from the edges.",
     ["src/tools/vector.rs", "src/tools/math.rs", "src/spectra.rs"],
     [("lerp, bilerp", "src/tools"), ("Spectra::ik, ith, closest_k, closest_th, interp_energy", "src/spectra.rs")],
     PBT + "a cell-based reference",
     "Points on, between, below and above bins and across the seam." + COMMON)

prop("C14", "Every bin's neighbours are the eight around it, wrapping in direction",
     "In the frequency by direction grid, the neighbours of a bin are exactly the adjacent bins (including diagonals), where the direction axis wraps around and the frequency axis does not; the relation is symmetric, and no bin is its own neighbour.",
     ["inputs"],
     "every bin of every grid size",
     "The test checks a few bins of one grid; corners are separately coded cases.",
     ["src/tools/analysis.rs"], [("nearest_neighbors case table", "src/tools/analysis.rs")],
     "exhaustive enumeration of grids to 14x14 plus proptest on larger grids, against modular arithmetic",
     "All bins of all grids 1x1 to 14x14 are enumerated; larger grids sampled.")

prop("C15", "Partitioning finds one wave system per peak and maps whole bins to them",
     "Partitioning a spectrum's energy into a number of levels finds exactly as many systems as there are separate peaks (connected plateaus without a higher neighbour) of the digitized energy, labels them from 1 without gaps, makes every system one connected region holding its peak, and gives every bin whose steepest path leads to only one peak to that peak; the map has one entry per bin. The result equals the WAVEWATCH III watershed of the same digitized field, is unchanged by scaling all energies, keeps the number of systems when the compass is turned, and data of the wrong length is refused. With blur the map stays connected, gap-free and repeatable.",
     ["inputs"],
     "every energy grid and every number of levels from 1 to 60,000",
     "Tests check the count on one or two files; plateaus, edges of the grid and the direction seam decide correctness.",
     ["src/tools/analysis.rs", "src/spectra.rs"],
     [("watershed immersion", "src/tools/analysis.rs"), ("Spectra::partition", "src/spectra.rs")],
     PBT + "a plateau/peak oracle, an independent port of WAVEWATCH III's PT_FLD, and metamorphic relations",
     "Grids to 15 by 19; values within 1e-6 of a digitization edge give no verdict. Bins deep inside thick contested plateaus may stay unassigned, as in WW3." + COMMON)

prop("C16", "Splitting a spectrum by system loses and duplicates no energy",
     "Each spectrum split from a partitioned one holds exactly the bins mapped to that system and zero elsewhere, on the same grid and in the same convention; together (with the unassigned part, number zero) they add up to the original bin by bin; a limit on their number keeps the first ones.",
     ["inputs"],
     "every spectrum and every partition map",
     "No test adds the parts up.",
     ["src/spectra.rs"], [("Spectra::split_from_components, from_component", "src/spectra.rs")],
     PBT + "bin-by-bin accounting",
     "Maps from the library and random maps." + COMMON)

prop("C17", "Swell statistics follow from the energy of each system",
     "For a partitioned spectrum (any convention), the significant height of the whole and of each system is four times the root of its variance (cell widths of the frequency grid plus the high-frequency tail), its period is that of its most energetic frequency bin, its direction is the energy-weighted mean direction waves come from (to a degree), its peak density is the parabolic peak, its energy the deep-water wave energy; systems below 0.1 m are left out and no other, they are listed by decreasing energy with their own id, the summary energy is their sum, and the squared heights add up when nothing is left out. Scaling energies by c squared scales heights by c; renumbering systems only renumbers the results. The same holds for spectra rebuilt from buoy records.",
     ["inputs"],
     "every spectrum, every partition map, any depth and wind",
     "Tests compare one or two stations against constants; a wrong weight in one bin goes unnoticed.",
     ["src/tools/waves.rs", "src/spectra.rs", "src/swell.rs"],
     [("pt_mean", "src/tools/waves.rs"), ("Spectra::swell_data", "src/spectra.rs"), ("SwellProvider", "src/swell.rs")],
     PBT + "an independent integral in bearings, plus scaling and renumbering relations",
     "Directions are even; bins tied for the peak accept either." + COMMON)

prop("C18", "Mirrored components are recognized, real ones kept",
     "A component is a probable mirror image exactly when an earlier (stronger) component is the first with the same period to a tenth of a second and their directions differ by 170 degrees or more (a component without period or direction is never one, nor has one); filtering removes exactly those and keeps the order of the rest.",
     ["inputs"],
     "every list of components",
     "No test covers it.",
     ["src/swell.rs"], [("SwellSummary::probable_false_components, filtered_components", "src/swell.rs")],
     PBT + "a quadratic reference",
     "Periods and directions collide on purpose." + COMMON)

prop("C19", "Tracked swells keep their identity from step to step",
     "Tracking the swells of a time series changes nothing but their ids: each step keeps its swells in order, a swell continues the best-matching swell of the previous step (nearest in direction, around north, and period relative to what dispersion allows) when that one is within the direction limit and the cut-off and not taken by a better match, and otherwise, or without a period or direction, gets an id never used before; no two swells of a step share an id, also after steps without any swell.",
     ["histories"],
     "every time series of swell lists, direction limits and distances",
     "The one test replays one file; births, gaps, ties and north crossings are not examined.",
     ["src/tools/waves.rs"], [("track_partitions", "src/tools/waves.rs")],
     "model-based property testing (proptest histories with shrinking) against a greedy-matching reference",
     "Histories of up to 8 steps by 5 swells; scores at the cut-off give no verdict." + COMMON)

prop("C20", "The polar picture shows the nearest bin at every pixel",
     "The cartesian projection of a spectrum puts north at the top and longer periods further out (scaled by the period limit and the exponent); every pixel inside the circle shows the bin within the limit nearest to it, no bin beyond the limit is shown, an empty pixel is missing, and projecting with a precomputed map equals projecting directly.",
     ["inputs"],
     "every spectrum, image size, period limit and exponent",
     "Tests render one image without looking at its pixels.",
     ["src/spectra.rs"], [("compute_cartesian_projection_map, project_cartesian", "src/spectra.rs")],
     PBT + "a brute-force nearest-bin search",
     "Images up to 28 pixels." + COMMON)

prop("C22", "Wave dispersion is solved correctly at any depth",
     "The wavelength solver satisfies the linear dispersion relation for any period and depth and grows with depth; the explicit wavenumber and group-velocity approximations are within their published accuracy of it; celerity and wavelength agree with each other and with the deep-water limit; wave energy is the deep-water energy of the given height and period in sea water.",
     ["inputs"],
     "every period from 1 to 30 s and depth from 0.1 to 10000 m",
     "Tests try one depth; convergence and the shallow branch are untested.",
     ["src/tools/waves.rs"], [("ldis, wavenu3, wavenuma, celerity, wavelength, wave_energy", "src/tools/waves.rs")],
     PBT + "a bisection solution of the dispersion relation",
     "Shallow, intermediate and deep water all occur." + COMMON)

prop("C23", "Waves break on the beach as refraction and shoaling say",
     "The breaking height and depth follow from refraction at the given depth (Snell) and the Weggel breaking index; a swell breaks on a beach exactly when it comes from within 90 degrees of the beach's facing direction, whichever way round the circle the two are written (a swell without height, period or direction is an error), and never turns away from the shore; the refraction and shoaling coefficients and spectral moment helpers match their formulas.",
     ["inputs"],
     "every swell, beach direction, slope and depth",
     "The tests use one beach and one swell.",
     ["src/tools/waves.rs"], [("break_wave, estimate_breaking_wave_height, refraction_coefficient, shoaling_coefficient", "src/tools/waves.rs")],
     PBT + "independent formulas and circular angle arithmetic",
     "Beach directions reach two turns around the circle." + COMMON)

prop("C24", "Directional spectra rebuilt from buoy coefficients carry the measured energy",
     "The directional spectrum rebuilt from a buoy's energy, mean directions and spreading coefficients holds, in every frequency and direction bin, energy times the first-two-harmonics spreading function (never below zero), zero where any of the inputs is missing, integrates back to the measured energy when no lobe is cut, has the measured mean direction, and is labelled as coming-from; building it from records or from plain numbers is the same, and it survives JSON.",
     ["inputs"],
     "every set of coefficients and missing values",
     "One file is compared at a few bins.",
     ["src/data/directional_spectral_wave_data_record.rs"], [("DirectionalSpectralWaveDataRecord::new, from_data_records", "src/data/directional_spectral_wave_data_record.rs")],
     PBT + "the Longuet-Higgins expansion and its integrals",
     "3-16 frequencies by 5-36 directions." + COMMON)

prop("C35", "Vector winds and missing-value sentinels are read correctly",
     "A wind given by its eastward and northward components has the speed of their length and the compass bearing it blows from, in whole degrees from 0 to 359, in every quadrant and on the axes; a value is missing exactly when it lies within 0.00001 of its sentinel.",
     ["inputs"],
     "every pair of components and every value and sentinel",
     "No test covers quadrants or values near a sentinel.",
     ["src/tools/math.rs"], [("scalar_from_uv", "src/tools/math.rs"), ("f_eq, is_some_missing", "src/tools/math.rs")],
     PBT + "atan2 on the reversed vector",
     "All quadrants and axes." + COMMON)

prop("C36", "Peaks and troughs alternate and clear the threshold",
     "Peak detection returns, alternating and in order, each highest sample followed by a fall of more than the threshold and each lowest sample followed by a rise of more than the threshold, and nothing else, for signals of any length.",
     ["inputs"],
     "every signal and threshold",
     "Two fixed signals are tested.",
     ["src/tools/analysis.rs"], [("detect_peaks", "src/tools/analysis.rs")],
     PBT + "a two-state reference scanner",
     "Signals to 60 samples with repeats." + COMMON)

prop("C21", "Contours separate what is above a level from what is below",
     "Contouring a grid gives one feature per level, in order, labelled with its threshold: closed rings running exactly where the grid, interpolated between cell centres, crosses the level (or along the border beside cells above it), so that a cell centre lies inside the rings exactly when its value is above the level. Every vertex goes through the given transformation. Over a latitude/longitude grid the levels are evenly spaced from the given (else smallest) to the given (else largest) value, missing cells count as below every level, the first and last points of the grid lie at the first and last longitude and latitude given (in either axis order) with rings placed between them accordingly, and a grid of the full circle, whatever its step, is closed across its seam. The contours of a spectrum run in period and in the compass bearing the waves come from, at ten levels from 0.1 to the highest energy.",
     ["inputs"],
     "every grid, level list, transformation, geographic extent and spectrum",
     "Tests contour one image without looking at where the rings run.",
     ["src/tools/contour.rs", "src/spectra.rs"],
     [("compute_contours, compute_latlng_gridded_contours", "src/tools/contour.rs"), ("Spectra::contoured", "src/spectra.rs")],
     PBT + "an even-odd inside test and on-edge test for every vertex; geographic and spectral contours against the raw rings mapped by the harness",
     "Grids to 16 by 16, full circles of 720 and 1440 columns (the library recognizes them from steps of half a degree down). The placement of rings over geographic grids is compared with the contour crate's rings for the same values." + COMMON)

prop("C25", "Every buoy wave summary row is read column by column",
     "From an NDBC wave summary every well-formed row gives one record, in order, whatever the spacing and line ends: date and time (UTC), and each of height, swell and wind-wave height, period and direction, steepness, average period and mean direction from its own column, missing where the column holds no number; comment lines, blank lines and malformed rows (too few columns, impossible dates) are skipped and do not affect the rows around them, and columns behind the last one of the format are ignored. The swell data of a record are a summary of the total height, average period and mean direction with the swell and the wind waves as components; changing units converts heights.",
     ["inputs"],
     "every file of rows, comments and malformed rows; every missing column",
     "Tests read one good file and look at a few rows; malformed rows, missing values and the columns behind the steepness are not examined.",
     ["src/data/wave_data_record.rs", "src/data/parseable_data_record.rs"],
     [("WaveDataRecord::from_data_row, swell_data", "src/data/wave_data_record.rs"), ("DataRecordIterator", "src/data/parseable_data_record.rs")],
     PBT + "the record each row was printed from",
     "Files of up to 14 lines." + COMMON)

prop("C26", "Every buoy spectrum row is read value by value",
     "From an NDBC spectral file every well-formed row gives one record, in order: its date, its separation frequency when it has one (9.999 when it is unreadable), and all values with their frequencies, bracketed or not; comments, blank lines and malformed rows (impossible dates, a value that is no number, a value without its frequency) are skipped and do not affect the rows around them. Rows of different lengths and kinds may be mixed.",
     ["inputs"],
     "every file of rows with 1 to 64 frequencies, comments and malformed rows",
     "Tests read four good files and look at one row each.",
     ["src/data/spectral_wave_data_record.rs", "src/data/parseable_data_record.rs"],
     [("SpectralWaveDataRecord::from_data_row", "src/data/spectral_wave_data_record.rs"), ("DataRecordIterator", "src/data/parseable_data_record.rs")],
     PBT + "the record each row was printed from",
     "Files of up to 10 lines." + COMMON)

prop("C27", "Wave model bulletins are read with the right dates, units and components",
     "From a WAVEWATCH III bulletin the header gives the point's name, its latitude and longitude with hemispheres, and the run date; a malformed header is an error. Every well-formed row gives one record, in order: the instant within a month of the run that its day and hour name (across month and year ends), heights converted from feet to metres, each component with its period, direction and deep-water energy; malformed rows are skipped. The swell data of a record are the total height with the first component's period and direction, and an error when there is no component.",
     ["inputs"],
     "every run date, lead time up to 27 days, place, number of components and malformed row",
     "Tests read two good files that stay within one month.",
     ["src/data/forecast_cbulletin_wave_data_record.rs"],
     [("ForecastCBulletinWaveRecordMetadata::from_data, from_data_row, swell_data", "src/data/forecast_cbulletin_wave_data_record.rs")],
     PBT + "the forecast each bulletin was printed from",
     "Bulletins of up to 14 rows." + COMMON)

prop("C28", "Wave model spectra are read bin by bin",
     "From a WAVEWATCH III spectral file the header gives frequencies, directions and point count (a file with another header or cut short inside it is an error), and every well-formed time step one record, in order: its date, the date of the first step, place, depth, wind and current with their units, and a spectrum holding exactly the printed energy in every bin with every direction read as the bearing the waves come from; a time step with an unreadable date, point or energy is left out and does not affect the others. The swell data of a record are the statistics of its spectrum's partitions.",
     ["inputs"],
     "every grid of 3-26 frequencies by 3-36 directions in either order, every record and malformed time step",
     "One test reads one good file and looks at a handful of values.",
     ["src/data/forecast_spectral_wave_data_record.rs"],
     [("ForecastSpectralWaveDataRecordMetadata::from_data, ForecastSpectralWaveDataRecordCollection", "src/data/forecast_spectral_wave_data_record.rs")],
     PBT + "the spectra each file was printed from, and the summary model of the swell statistics",
     "Up to 3 time steps; a time step that ends early is not claimed (its neighbour's date line cannot be told apart). Swell data are checked for directions in the model's own order." + COMMON)

prop("C29", "Every message of a GRIB index is found with its offset",
     "From a GRIB index every well-formed line gives one record, in order: message number, byte offset (also beyond 4 GB), reference hour, variable, level and validity exactly as printed; comments, blank and malformed lines are skipped and do not affect the lines around them.",
     ["inputs"],
     "every index of valid, malformed and comment lines",
     "One test counts the records of one good file.",
     ["src/data/grib_index_record.rs", "src/data/parseable_data_record.rs"],
     [("GribIndexRecord::from_data_row", "src/data/grib_index_record.rs")],
     PBT + "the message each line was printed from",
     "Indexes of up to 16 lines." + COMMON)

prop("C30", "Weather forecasts are read period by period",
     "From a National Weather Service forecast every period gives one record, in order: start and end instants whatever the zone offset, daytime flag, temperature, dew point and humidity with their units (missing when null), the wind's lower speed of a range with its unit, the compass direction (missing when blank), icon and texts; a document with a missing or wrongly typed field or cut short is an error. Office and grid cell are read from a grid-point document.",
     ["inputs"],
     "every forecast document with any texts, offsets, ranges and nulls, and malformed documents",
     "One test counts the periods of one file.",
     ["src/data/nws_weather_forecast_data_record.rs"],
     [("NwsWeatherForecastDataRecordCollection::from_json, records", "src/data/nws_weather_forecast_data_record.rs")],
     PBT + "the forecast each document was built from",
     "Forecasts of up to 6 periods; temperatures in Fahrenheit and winds in miles per hour, as the service sends them." + COMMON)

prop("C31", "Tide predictions and stations are read entry by entry",
     "From a tide prediction document every entry gives its time (UTC), its level whether sent as text or number, and whether it is high or low water; impossible times, levels that are no number and unknown kinds are errors. From a station list every station keeps its id, name, state, reference and place, is found by its exact id (the first when ids repeat, none when unknown) and becomes a map point at its longitude and latitude with id, name and state. Predictions and stations survive JSON.",
     ["inputs"],
     "every prediction document and station list",
     "Tests count the entries of two files and look up one station.",
     ["src/data/tidal_data_record.rs", "src/tide_station.rs", "src/tools/serde.rs"],
     [("TidalDataRecordCollection::from_json", "src/data/tidal_data_record.rs"), ("TideStations::find_station_by_id, as_feature", "src/tide_station.rs")],
     PBT + "the entries each document was built from",
     "Up to 12 entries." + COMMON)

prop("C32", "No input text can crash a parser",
     "Whatever text is given to the parsers of buoy summaries and spectra, model bulletins and spectra, GRIB indexes, tide predictions, weather forecasts and grid points, or to the parsers of units, bearings, compass points, steepness and measurements, they end with records or an error and never panic, give at most one record per line, and every model spectrum they give has exactly one energy per bin; asking these records for their swells, tracking, filtering, breaking and printing these never panics either.",
     ["inputs"],
     "arbitrary text, arbitrary tokens and valid files of every format with up to 8 edits",
     "Tests read only good files.",
     ["src/data"],
     [("ParseableDataRecord::from_data_row of every record", "src/data"), ("DataRecordIterator", "src/data/parseable_data_record.rs")],
     "structured fuzzing (proptest mutations of valid files and arbitrary text, with shrinking) against a no-panic and record-count oracle",
     "Edits insert, delete, replace, repeat, drop and cut. The tide-station list is not included: its reader returns no Result, so it can only panic on bad JSON; changing that is an API change." + COMMON)

prop("C33", "Every record survives JSON unchanged",
     "Measurements, units, unit systems, bearings, compass points, steepness, swells, swell summaries, buoy, bulletin, model-spectrum, weather and index records and their metadata written to JSON read back the same, with missing values missing and unit labels beside values.",
     ["inputs"],
     "every record the parsers can produce and every value",
     "One test writes one value.",
     ["src/dimensional_data.rs", "src/swell.rs", "src/data", "src/units"],
     [("Serialize and Deserialize of every record", "src/dimensional_data.rs, src/data")],
     PBT + "the round trip",
     "Numbers may differ in the last digit, as serde_json reads them." + COMMON)

prop("C34", "Request addresses ask for exactly what was wanted",
     "The address for tide predictions names the station, the window's begin and end to the minute in GMT, datum, interval, units and JSON, each exactly once; the addresses for a weather point, grid point, forecast and hourly forecast name exactly the place (longitudes from -180 to 180), office and cell given.",
     ["inputs"],
     "every station, window, datum, interval, unit system, place and grid cell",
     "Tests build one address each or none.",
     ["src/tide_station.rs", "src/weather.rs"],
     [("TideStation::tidal_data_url", "src/tide_station.rs"), ("create_points_url and the others", "src/weather.rs")],
     PBT + "the parsed query of each address",
     "Metric and English units only, the ones the tide service knows." + COMMON)

STUB = " The modules are compiled from /repo against stand-ins for the crates this sandbox lacks (stubs/gribberish, stubs/readap); what those crates decode is trusted."

prop("C37", "Buoy observations are read row by row into their own measurement",
     "From files of standard meteorological observations and of latest observations, every row gives its time and each of its fourteen measurements under its own name and unit (missing when not a number), with the tide converted to meters; comments and blank lines are ignored, a malformed row is left out without affecting the rows around it and without a panic, and columns behind the last one of the format are ignored. Changing the units of a record changes each measurement as it would on its own; the swell summary is the wave height, dominant period and mean direction of the row; the maps of a record hold the time and each measurement under its name; records survive JSON. Joining stations with latest observations gives one feature per station, in order, carrying the last observation of exactly that station (whatever the case of the letters of its id) without its missing measurements.",
     ["inputs", "histories"],
     "every file of observations and every list of stations",
     "Tests read one row of each kind.",
     ["src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs", "src/data/parseable_data_record.rs"],
     [("MeteorologicalDataRecordCollection::records", "src/data/meteorological_data_record.rs"), ("LatestObsDataRecordCollection::records, latest_obs_feature_collection", "src/data/latest_obs_data_record.rs")],
     PBT + "the rows each file was built from, with malformed rows injected",
     "Files of up to 12 lines." + STUB + COMMON)

prop("C38", "Model output hours and output indexes agree",
     "For every output pattern (hourly; hourly then three-hourly; three-hourly; three-hourly then six-hourly, with any change-over hour that is an output) the hour of an output is the one its pattern gives, the index of an hour is that of the last output at or before it, and the indexes and hours of a range follow from these; the global wave model is hourly to 120 h then three-hourly, the ensemble three-hourly to 240 h then six-hourly, the nearshore model hourly.",
     ["inputs"],
     "every pattern, change-over hour, hour, index and range",
     "Tests check a dozen hours.",
     ["src/model/noaa_model.rs", "src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs"],
     [("ModelTimeOutputResolution", "src/model/noaa_model.rs")],
     "exhaustive enumeration of patterns and hours to 1200, and " + PBT + "a list of outputs stepped one by one",
     "The change-over of the three-hourly pattern is a multiple of three, as in every model." + STUB + COMMON)

prop("C39", "Model addresses name the latest available run, grid and hour",
     "The address of a model output names the source's store, the run (every six hours, the latest at least five hours before the instant asked for, on its own day), the grid of the model and the output hour in three digits, and the address of its index is the same with .idx; without an instant the present is meant. Names of sources are understood in any case and otherwise refused, and survive JSON.",
     ["inputs"],
     "every model, source, output hour and instant, and every source name",
     "Tests build four addresses.",
     ["src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs", "src/model/noaa_model.rs", "src/tools/date.rs"],
     [("NOAAModel::create_url, create_idx_url", "src/model"), ("ModelDataSource::try_from", "src/model/noaa_model.rs")],
     PBT + "addresses assembled from the parts",
     "The ensemble model on the Google store is excluded: it is not published there." + STUB + COMMON)

prop("C40", "Buoy stations are read whole and addressed by their id",
     "From a station list every station keeps its id, position, elevation, owner, program, type and the four data flags; it is active when any flag is set, its name is the words of the raw name in order without the parts that are only a number or words in brackets; it is found by its exact id (the first when ids repeat), equals stations of the same id only, becomes a map point with id, name, activity and type, and survives JSON. The addresses of its data name the station, product, source and model run.",
     ["inputs"],
     "every station list, station, source and model run",
     "Tests look up two stations of one file.",
     ["src/buoy_station.rs"],
     [("BuoyStations::from_raw_data, find_station", "src/buoy_station.rs"), ("BuoyStation::name, is_active and the *_url functions", "src/buoy_station.rs")],
     PBT + "the stations each list was built from",
     "Lists of 1 to 7 stations." + STUB + COMMON)

prop("C41", "Data request constraints are printed and read back exactly",
     "A constraint prints as its variable and its ranges start:step:end in brackets and reads back the same; a text with a range of anything but three whole numbers is an error and never a panic; a request address is the root, .dods and the constraints separated by commas.",
     ["inputs"],
     "every constraint, list of constraints and constraint text",
     "Tests read one constraint and print two.",
     ["src/tools/dap.rs"],
     [("DapConstraint::from_str, Display, format_dods_url", "src/tools/dap.rs")],
     PBT + "the round trip, and fuzzed constraint texts against a no-panic oracle",
     "Up to 3 ranges and 4 constraints." + STUB + COMMON)

prop("C42", "Historic observation data sets give one record per time",
     "A standard meteorological data set gives one record per time, each measurement taken from its own variable at that time with its unit and missing where the variable holds its missing marker (99, 999 or 9999); a spectral density data set gives one record per time with all its frequencies and the five values of each frequency in order, and these records survive JSON.",
     ["inputs"],
     "every data set with any times, frequencies, values and missing markers",
     "Tests count the records of two files.",
     ["src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs"],
     [("StdmetDataRecordCollection::records", "src/data/meteorological_data_record.rs"), ("SwdenWaveDataRecordIterator", "src/data/swden_wave_data_record.rs")],
     PBT + "the data set each file was built from",
     "Up to 12 times and 30 frequencies." + STUB + COMMON)

prop("C43", "Model values at a place come from the cells around it",
     "On a regular grid, in either direction of latitude, for places written in any convention, and across the antimeridian: the value at a place is that of the nearest cell, the interpolated value is bilinear in the four cells around it and the cell's own value on a cell, the values within a tolerance are exactly the present values of the cells no farther than that in latitude and in longitude; a place outside the grid is an error. Contours are those of the data converted to the units asked for, with every second level labelled in these units.",
     ["inputs"],
     "every regular grid, place and tolerance",
     "Tests query one place of one file.",
     ["src/model/noaa_model.rs", "src/location.rs", "src/tools/analysis.rs"],
     [("NOAAModel::query_location_data, interp_location_data, query_location_tolerance, contour_data", "src/model/noaa_model.rs")],
     PBT + "nearest-cell, bilinear and neighbourhood reference models",
     "Grids of up to 8 by 12 cells; a point exactly between cells is not judged, and a cell exactly at the tolerance only where floats hold the distance exactly." + STUB + COMMON)

prop("C44", "Point forecasts from wave model fields average the cells around",
     "From the fields of one output time, in any order, the forecast of a place has the wave height, period and direction of the sea, the wind where it has a value, and one component per swell and for the wind sea wherever all three of its fields have a value there, each the mean of the present cells within the tolerance, directions averaged around the circle to within a degree, with its energy, components from the highest down; without height, period or direction fields it is an error. Changing units changes wind speed, summary and components as on their own, and forecasts survive JSON.",
     ["inputs"],
     "every set of fields, grid, place, tolerance and unit history",
     "No stable test covers it.",
     ["src/data/gfs_wave_grib_point_data_record.rs"],
     [("GFSWaveGribPointDataRecord::from_messages", "src/data/gfs_wave_grib_point_data_record.rs")],
     PBT + "means computed from the cells around the place",
     "Fields share one grid, as in a model output." + STUB + COMMON)

prop("C45", "Records in other units describe the same sea",
     "Switching a buoy summary, a bulletin, a model spectrum or a buoy spectrum record through any sequence of unit systems changes each of its measurements exactly as that measurement on its own (missing ones stay missing, dates, places and spectra stay), switching twice to the same system changes nothing more, and the swells the record gives are the same swells in whatever system it is. Every measurement of a record has a name of its own made of words of its field.",
     ["histories"],
     "every record and every sequence of unit systems",
     "No test switches a record.",
     ["src/data", "src/swell.rs", "src/dimensional_data.rs"],
     [("to_units of every record", "src/data"), ("swell_data of every record", "src/data")],
     "model-based property testing (proptest histories of unit systems with shrinking) against the conversion of each measurement on its own",
     "Histories of up to 5 unit systems." + COMMON)

prop("C46", "The swells of a known sea come back from every source",
     "A sea made of a few swells that stand apart, given as a directional spectrum in any convention, as a model spectral file, or as the five spectral files of a buoy, is read, partitioned and summarized into exactly these swells: each with its height, its peak period and the direction it comes from, nothing else of weight beside them, and the height of the whole. Over time, while the swells grow and fall, tracking gives each of them one number of its own.",
     ["inputs", "histories"],
     "every sea of up to 4 separate swells, any grid, any source",
     "The tests print or count the swells of single files; none compares them with a known sea.",
     ["src/spectra.rs", "src/tools", "src/data"],
     [("Spectra::partition, swell_data", "src/spectra.rs"), ("watershed", "src/tools/analysis.rs"), ("pt_mean, track_partitions", "src/tools/waves.rs"), ("DirectionalSpectralWaveDataRecord::from_data_records", "src/data/directional_spectral_wave_data_record.rs"), ("ForecastSpectralWaveDataRecordCollection", "src/data/forecast_spectral_wave_data_record.rs")],
     "end-to-end property testing (proptest with shrinking) against the sea each input was made from",
     "Swells stand apart by 8 bins of frequency or 110 degrees, none below 15% of the strongest peak; heights to 4-8%, periods to a bin, directions to 5-8 degrees." + COMMON)
