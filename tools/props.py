# the properties; gen.py turns them into properties.jsonl and MANIFEST.json
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, note, state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note, state=list(state), na=na))

NOTEST = "No existing test runs the core library at all (the stable tests cover one standalone trilateration example and one static tilt); "
CL = "src/navigation_client_impl.cpp"

prop("C01", "Splitting a measurement stream into batches does not change the results",
 "Feeding a time-ordered sequence of measurements to a navigation client in one call, one at a time, or in any other split gives the same sequence of outputs and debug states, one per measurement. An empty call returns nothing and changes nothing. A measurement older than an earlier one of the same call is skipped and leaves no trace.",
 ["histories", "inputs", "configurations"], "every sequence of measurements of an alphabet (radio, GNSS, motion) up to the bound, every partition into calls, several configurations",
 NOTEST + "a test can try one log with one batch size, not every partition of every history.",
 [CL, "src/measurements/measurement_preprocessor.cpp"], [("batch loop with local out-of-order guard", CL)], ["navigate() outputs", "getStates()"],
 "every partition of every history up to the bound is executed on real clients and compared for equality of all output fields")
prop("C02", "Clients are independent and deterministic",
 "A navigation client's outputs depend only on its map, its settings and the measurements given to it: another client alive in the same process and used in any interleaving, the previous contents of memory, or an earlier run do not change them. Two clients given the same inputs return identical outputs, and any number of clients can share one map.",
 ["schedules", "histories", "configurations"], "every interleaving of the calls of two clients up to the bound, with several heap contents",
 NOTEST + "leaks between instances (statics, shared map state, uninitialised members) only show for particular interleavings of calls or memory contents.",
 [CL, "src/position_postprocessor/position_postprocessor.cpp", "include/navigine/navigation-core/navigation_input.h"], [("all state is in members of the client", CL)], ["navigate() outputs"],
 "all interleavings of two bounded call sequences are executed on real clients under different heap fill patterns and compared with solo runs; single-threaded interleaving of calls, no concurrency inside a call exists in the code")
prop("C03", "Navigation does not depend on the absolute time origin",
 "Adding the same whole number of milliseconds to every timestamp of a log changes none of the outputs of a navigation client, for logs whose times are wall-clock times (well after zero).",
 ["histories", "inputs", "configurations"], "every history up to the bound, several offsets including ones that need more than 32 bits, several configurations",
 NOTEST + "a test uses one time base; overflow or use of absolute time shows only with others.",
 [CL, "src/position_postprocessor/position_postprocessor.cpp", "src/sensor_fusion/pedometer.cpp"], [("only differences of 64-bit timestamps are used", CL)], ["navigate() outputs"],
 "every history up to the bound is executed at several time bases and compared")
prop("C04", "Every output is well formed and inside the map",
 "For measurements with finite values, every output either has a documented status other than OK and carries no position, or has status OK with finite coordinates, a radius that is positive and finite, an orientation in [-pi, pi], a level of the map and a source that fits what was received (indoor only on levels with a transmitter heard, satellite only after a fix, fused only when enabled). Unless positions outside the map are allowed, the position lies in its level's bounding box to within a centimetre. Before anything usable was received there is no position; when no transmitter has been heard for the no-signal time and no fix is valid, the position is at most the previous one repeated.",
 ["histories", "inputs", "configurations"], "every history over radio, GNSS, NMEA and motion measurements up to the bound for a set of configurations",
 NOTEST + "the guarantee has to hold in every reachable client state, not on one log.",
 [CL, "src/position_postprocessor/position_postprocessor.cpp"], [("bounding box clamp, status assignment", "src/position_postprocessor/position_postprocessor.cpp")], ["navigate() outputs"],
 "invariants checked after every call of every history up to the bound, under ASan/UBSan")
prop("C05", "Zone positioning reports the transmitter heard best on the current level",
 "With the zone algorithm, a set of averaged radio measurements on a level gives the position of the level's transmitter with the strongest signal, on that level and with the time of the calculation, marked as indoor, with accuracy 1 + sqrt(exp((A - rssi) / B)) from that level's settings. Transmitters of other levels and unknown ones have no influence, and neither has the order of the measurements. Without a measurement from the level there is no solution and no position.",
 ["inputs", "configurations"], "every set of signal strengths over the transmitters of a multi-level map, every order, several level settings",
 NOTEST + "zone selection is not exercised at all.",
 ["src/position_estimator/position_estimator_zone.cpp", "include/navigine/navigation-core/level.h"], [("strongest transmitter of the level", "src/position_estimator/position_estimator_zone.cpp")], ["position estimator result and status", "navigate() output"],
 "exhaustive over the signal alphabet, against an independent computation, on the estimator and through the navigation client")
prop("C06", "The reported floor changes only after five detections of the new one",
 "The first detected floor is reported at once; afterwards the reported floor changes to another one exactly when that one has been detected five times since the last change of the counts, other floors detected in between notwithstanding. An epoch without a detection changes nothing. When a floor is confirmed, the counts of its competitors start again from zero, while the confirmed floor keeps its lead.",
 ["histories"], "every sequence of detections over three floors and none, up to the bound, and long blocks of equal detections",
 NOTEST + "hysteresis is a property of all detection histories.",
 ["src/level_estimator/level_history.cpp", "src/level_estimator/level_estimator.cpp"], [("vote counting", "src/level_estimator/level_history.cpp")], ["level returned by the level estimator"],
 "all detection sequences up to the bound are executed against a reference automaton")
prop("C07", "With the barometer, a floor change needs a matching pressure change",
 "When the barometer is enabled and enough pressure samples have been collected, the reported floor changes only when the height difference derived from the mean pressures of the recent and the preceding window of samples exceeds two metres. Until then, and with the barometer disabled, the floor follows the signals alone; readings of other sensors are not taken for pressure, and messages of other kinds add no pressure sample.",
 ["histories", "inputs"], "every sequence of pressure plateaus, floor detections and foreign sensor readings up to the bound",
 NOTEST + "the gate depends on a history of more than two hundred samples.",
 ["src/level_estimator/barometer.cpp", "src/level_estimator/level_estimator.cpp"], [("two sliding windows of pressure samples", "src/level_estimator/barometer.cpp")], ["level returned by the level estimator"],
 "all block histories up to the bound are executed against a reference automaton; samples within 0.02 m of the two-metre threshold are not judged")
prop("C08", "Radio input is filtered and averaged over the configured sliding window",
 "Only measurements allowed by the settings (known transmitter of the right kind, signal range, kind of measurement, signal technology) are used. Each time the window shift has elapsed, the result has exactly one entry per transmitter heard in the averaging window, with the mean signal and the mean or model distance, limited to the configured number of closest ones; otherwise it is empty. Measurements that had left the window at the previous extraction no longer count, and while the user stands still the window keeps growing.",
 ["histories", "inputs", "configurations"], "every sequence of measurements, time gaps and extractions up to the bound for a set of window and filter settings",
 NOTEST + "windowing is a property of all arrival histories.",
 ["src/measurements/measurement_preprocessor.cpp"], [("measurement buffer and extraction", "src/measurements/measurement_preprocessor.cpp")], ["extracted radio measurements", "time of the last signal"],
 "all arrival histories up to the bound are executed against a reference model")
prop("C09", "Indoor and satellite positions are combined by the documented rules",
 "Without satellite use, or while none is known, the latest indoor position is the result; with only a satellite position, that one. A preferred indoor solution or an instant satellite position is taken as it is when enabled and present; a position too old for fusing loses to the other one. Otherwise, if fusion is on and the two agree within their accuracies plus the border, the result is on the line between them, weighted by the other's deviation (which grows with age and is averaged with its prediction), newest time, smaller deviation, marked as fused; if not, the one with the smaller deviation is the result.",
 ["histories", "inputs", "configurations"], "every sequence of indoor and satellite positions (present or not, several places, accuracies and delays) up to the bound, all combinations of the switches",
 NOTEST + "the rules depend on switches, ages and the history of deviations together.",
 ["src/position_postprocessor/position_postprocessor.cpp"], [("fusePositions", "src/position_postprocessor/position_postprocessor.cpp")], ["fused position"],
 "all histories up to the bound and all switch combinations are executed against a reference model")
prop("C10", "Post-processing keeps positions fresh, on the map, on the graph and at rest",
 "A position that is missing, too old for dead reckoning, or outside the map (unless that is allowed) yields no output position. Otherwise the output has the same floor, source and accuracy, is moved to the nearest point of the route graph exactly when the graph is enabled and within the projection distance, and is moved into the level's bounding box. While the user stands still an earlier output stays where it was, and is updated only after the update time and only if the new position is within the distance threshold.",
 ["histories", "inputs", "configurations"], "every sequence of positions (on and off the map, near and far from the graph, of different ages), step events and delays up to the bound, combinations of the switches",
 NOTEST + "freshness, standstill and projection interact over a history.",
 ["src/position_postprocessor/position_postprocessor.cpp", "src/geometry.cpp"], [("getProcessedPosition", "src/position_postprocessor/position_postprocessor.cpp")], ["processed position"],
 "all histories up to the bound are executed against a reference model (with the smoothers as real objects where smoothing is on)")
prop("C11", "Alpha-beta smoothing follows its filter and resets on implausible jumps",
 "The smoothed position is the predicted one corrected by the alpha share of the innovation, with the velocity corrected by the beta share, where alpha falls from 0.9 to 0.1 as smoothing rises from 0 to 1 (or follows the accuracies within the same limits when that is enabled). For the first position, after a reset, a gap of more than ten seconds, an implausible speed with the speed constraint, or when the smoothed point would leave the allowed area with barriers on, the measured position itself is returned and the velocity starts again from zero. Everything else of the position, and the result for an unchanged time, is left as it is.",
 ["histories", "inputs", "configurations"], "every sequence of positions, time steps and resets up to the bound for all switch combinations",
 NOTEST + "a recursive filter's state depends on the whole history.",
 ["src/position_postprocessor/position_smoother_ab.cpp"], [("alpha-beta filter", "src/position_postprocessor/position_smoother_ab.cpp")], ["smoothed position"],
 "all histories up to the bound are executed against a reference filter")
prop("C12", "Time smoothing moves continuously between the last two positions",
 "With time smoothing, the output starts at the first position. When a new position arrives, it leaves the position before that one and moves in a straight line to the new one, reaching it after as much time as lay between the two and staying there; with regular updates it never jumps. A repeated position is not a new one, a change of the floor starts anew, and floor, source and accuracy are left as they are.",
 ["histories", "inputs"], "every sequence of new and repeated positions and time steps up to the bound",
 NOTEST + "continuity is a property of all update histories.",
 ["src/position_postprocessor/navigation_time_smoother.cpp"], [("interpolation", "src/position_postprocessor/navigation_time_smoother.cpp")], ["smoothed position"],
 "all histories up to the bound are executed against a reference model")
prop("C13", "Least-squares smoothing fits a line to the recent track and stays finite",
 "The least-squares smoother returns the first position as it is; afterwards it fits straight lines for both coordinates to the positions of the averaging window, evaluates them at the shifted time and mixes the result with the previous output by the smoothing weight. Positions older than the window do not count, unchanged coordinates do, repeated times replace the earlier position, and the output is always finite. With barriers on, a smoothed point outside the allowed area is replaced by the measured position and the track starts anew; a reset also starts it anew.",
 ["histories", "inputs", "configurations"], "every sequence of positions, time steps (zero included) and resets up to the bound",
 NOTEST + "degenerate windows (equal times, one point, gaps) are histories a test would have to think of.",
 ["src/position_postprocessor/position_smoother_lstsq.cpp", "src/position_postprocessor/polynomial_fit.cpp"], [("windowed line fit", "src/position_postprocessor/polynomial_fit.cpp")], ["smoothed position"],
 "all histories up to the bound are executed against a reference model")
prop("C14", "Satellite positions are accepted, rejected and held by the configured rules",
 "A new satellite fix yields a position with the time of the fix on the first level whose bounding box covers it (any level if positions outside the map are allowed), with its accuracy raised to the configured minimum, unless it is less accurate than the accepted maximum, reports too few satellites, or deviates too much from the window of recent fixes (the window starts anew after an indoor position). Between fixes the last accepted position is repeated until the validity time is over, and then there is none. A fix that is not new is not used as a new one.",
 ["histories", "inputs", "configurations"], "every sequence of fixes, satellite reports, indoor epochs and delays up to the bound, several configurations",
 NOTEST + "acceptance depends on the history of fixes.",
 ["src/position_estimator/position_estimator_outdoor.cpp"], [("outdoor estimator and sigma filter", "src/position_estimator/position_estimator_outdoor.cpp")], ["outdoor position"],
 "all histories up to the bound are executed against a reference model; sigma-filter decisions within 1e-9 of the limit are not judged")
prop("C15", "Fingerprint positioning averages the most similar reference points",
 "With enough measurements from the level's radio map, the reported position is the mean of the K most similar reference points (or of the corners of the best triangle of reference points) weighted by similarity, where similarity grows as measured and mapped signals (or their differences, in difference mode) agree and with the number of transmitters they share, stronger signals counting more. The position lies in the convex hull of reference points, does not depend on the order of measurements or points, and a level that cannot be triangulated does not affect others. Too few measurements or no similar point give no solution instead of a made-up position.",
 ["inputs", "configurations"], "every combination of signal levels over the transmitters of a radio map, all modes and K, measurement orders",
 NOTEST + "the fingerprint algorithm is not exercised at all.",
 ["src/knn/knn_utils.cpp", "src/position_estimator/position_estimator_knn.cpp"], [("reference point weights, triangle choice", "src/knn/knn_utils.cpp")], ["position estimator result and status"],
 "exhaustive over the signal alphabet, against an independent computation; ties between equally good choices accept any of them")
prop("C16", "The detected floor is the one whose transmitters or fingerprints match best",
 "From one set of averaged measurements the floor with the best score is detected: the strongest mean signal of its own transmitters (with transmitter power when enabled), or with a radio map the best agreement with its fingerprints. Unknown transmitters, the order of floors in the map and the order of measurements do not matter, and nothing heard means no detection.",
 ["inputs", "configurations"], "every combination of signal levels over the transmitters of a multi-floor map, both estimators and their switches",
 NOTEST + "floor scoring is not exercised at all.",
 ["src/level_estimator/level_estimator_transmitters.cpp", "src/level_estimator/level_estimator_radiomap.cpp"], [("score per floor", "src/level_estimator/level_estimator_transmitters.cpp")], ["detected level"],
 "exhaustive over the signal alphabet, against an independent computation; ties accept any of the best")
prop("C17", "Reference points are triangulated by Delaunay with an edge length limit",
 "For reference points in general position the triangulation consists exactly of the triangles whose circumcircle contains no other point, less those with an edge longer than the limit, independent of the order of the points; only flat triangles on the hull of the points may be missing. For any points, triangles are not degenerate, use only given points unchanged and do not repeat; fewer than three points give none. Each level with more than three reference points is triangulated independently of the other levels.",
 ["inputs"], "every subset of an irregular point pool in several orders and edge limits, and lattice configurations",
 NOTEST + "geometry degeneracies need enumeration.",
 ["src/triangulation.cpp", "src/knn/knn_utils.cpp"], [("incremental triangulation", "src/triangulation.cpp")], ["list of triangles"],
 "exhaustive over the point sets, exact integer oracle")
prop("C18", "The pedometer counts one step per upward crossing of filtered acceleration",
 "A step is counted at an accelerometer reading exactly when the filtered acceleration magnitude (mean over the last 0.2 s, less the mean over the last 2.5 s) rises above the threshold there and more than 0.3 s have passed since the previous step; after the start or a gap in the readings the filter first needs four values. Its length is 0.52 times the fourth root of the swing of the filtered magnitude over the 0.7 s before, its time that of the reading. At rest no steps are counted; readings of other sensors, radio and other messages change nothing. The client reports the running number of the step, its length times the step multiplier and its time with the message that completes the step, and no motion with any other message.",
 ["histories", "inputs"], "every acceleration waveform composed of segments (rest, step, weak and fast steps, gap, foreign sensors, fall, raised level, stamping) up to the bound, regular walks of all periods and phases, other messages interleaved",
 "The pedometer tests replay recorded logs that are not part of the build, and none passes reliably.",
 ["src/sensor_fusion/pedometer.cpp", "src/sensor_fusion/sensor_fusion.cpp", "src/navigation_client_impl.cpp"], [("threshold crossing of the filtered magnitude", "src/sensor_fusion/pedometer.cpp")], ["steps of the pedometer", "motion information", "step counter and length in the debug state"],
 "all waveforms up to the bound are executed against a reference implementation; values within 1e-9 of the threshold are not judged")
prop("C19", "The orientation filter follows gravity, magnetic field and rotation",
 "Starting level and facing north, each accelerometer reading turns the orientation towards gravity by the accelerometer gain, magnetometer readings turn it towards magnetic north until the first gyroscope reading, and gyroscope readings turn it by their rate times the time since the previous one. A device at rest arrives at its true tilt and azimuth. Zero readings turn nothing. Angles are always finite and in range. The magnetic azimuth is that of the tilt-compensated last magnetometer reading; the device azimuth is the last one reported by the device, valid for the configured time, and used unless the calculated azimuth is configured. Angle reduction returns the equivalent angle in [-pi, pi] for every finite angle.",
 ["histories", "inputs", "configurations"], "every sequence of sensor readings (accelerometer, magnetometer, gyroscope, orientation, other; zero ones too) and time steps up to the bound, all attitudes of a grid at rest, long rotations, two sets of gains",
 "One test checks static tilt only.",
 ["src/sensor_fusion/complementary_filter.cpp", "src/sensor_fusion/quaternion.cpp", "src/sensor_fusion/sensor_fusion.cpp"], [("complementary filter", "src/sensor_fusion/complementary_filter.cpp")], ["orientation angles", "magnetic, device and gyroscope azimuth", "motion information"],
 "all reading sequences up to the bound are executed against a reference filter with rotation matrices; attitudes within 0.03 degrees of vertical are checked for range only, times are ascending")
prop("C20", "Geographic and local coordinates convert into each other without loss",
 "Local coordinates are metres east and north of the level's binding point; converting to geographic coordinates and back, or the other way round, returns the same point, also across the 180 degree meridian and in the southern and western hemispheres. Local distances agree with distances on the earth and directions keep their sign.",
 ["inputs"], "every combination of binding points and offsets of a grid covering the globe",
 NOTEST + "conversions are not exercised.",
 ["src/point.cpp"], [("gpsToLocal / localToGps", "src/point.cpp")], ["converted coordinates"],
 "exhaustive over the grid, closed-form oracle")
prop("C21", "Geometry primitives are exact on segments, projections and circles",
 "Segments are reported crossing exactly when they cross in an interior point of both; the intersection of a vector with a segment, the projection of a point on a line, its distance to a segment, point-on-segment and in-triangle tests give the geometrically right answer for every position, including parallel, touching and degenerate ones.",
 ["inputs"], "every configuration of points of integer lattices under exact affine maps",
 NOTEST + "wrong answers occur only in particular alignments.",
 ["src/geometry.cpp"], [("geometry functions", "src/geometry.cpp")], ["function results"],
 "exhaustive over the lattice, exact integer oracle")
prop("C22", "The map given to the library is the map it navigates on",
 "Every level, transmitter, reference point with its fingerprint, route graph and outline added to the map is found under its identifier with its local position, height, path loss model, kind and connections, and nothing else is found. Adding levels, in any order, does not change those added before; the first of two transmitters with one identifier is kept. Route graphs are undirected, free of duplicate edges, and reject edges to missing vertices.",
 ["inputs", "histories"], "every map of one or two levels from a pool of contents, every order of adding, every sequence of graph operations up to the bound",
 NOTEST + "map building is not exercised.",
 ["src/level.cpp", "src/level_collector.cpp", "src/radiomap.cpp", "include/navigine/navigation-core/graph.h"], [("level construction", "src/level.cpp")], ["map queries"],
 "exhaustive over the map pool and graph operation sequences, model comparison after every operation")
prop("C23", "Map, log and settings files are read completely and as written",
 "Every known entry of a log, every documented setting and every level, transmitter, reference point and graph line of a map file arrives with its values at its place (of a radio entry: kind, id, rssi and distance; of a reference point: the mean of its distribution; graph ends closer than 0.1 m are one vertex); everything not given keeps its default. Unknown settings, unreadable values and log entries of unknown type are left out without affecting any other entry. Reading does not depend on the order of the entries of a settings object or a map. A missing settings file gives an error code.",
 ["inputs", "configurations"], "every documented setting alone and in pairs, every type of log entry in every order up to the bound, maps from a pool of features in every order",
 NOTEST + "the readers are not exercised by a test.",
 ["tools/verification/helpers.cpp"], [("JSON conversion", "tools/verification/helpers.cpp")], ["parsed measurements, settings and levels"],
 "exhaustive over generated files, expected values from the documentation of the settings")
prop("C24", "Standalone trilateration weights known beacons by inverse distance",
 "With at least three different beacons measured, the result is the mean of the positions of the known ones weighted by the inverse of the (per beacon averaged) distance, whatever the order of the measurements and of the beacons, however often it is calculated, and with whatever measurements and beacons the object was used before: the ones set last count. It lies in their convex hull and is finite, also for a distance of zero. Fewer beacons, or none known, or a negative distance, is reported as an error.",
 ["inputs", "histories"], "every multiset of measurements from an alphabet up to the bound, every order, sequences of calls on one object",
 "One test checks one set of four measurements on a new object.",
 ["standalone_algorithms/trilateteration/src/trilateration.cpp", "standalone_algorithms/trilateteration/src/beacon.cpp"], [("weighted centroid", "standalone_algorithms/trilateteration/src/trilateration.cpp")], ["coordinates and error code"],
 "all measurement sequences up to the bound are executed against a reference computation")
prop("C25", "The standalone estimator follows the nearest transmitter and smooths the track",
 "Measurements of an enabled kind with a signal strictly between -100 and 0 are used. Once the window shift has elapsed, the packet has one entry per transmitter heard in the window, with mean signal, mean distance and newest time, limited to the five strongest. The position is that of the strongest known transmitter of the packet with accuracy 1 + sqrt(exp((-82 - rssi) / 3)) and the newest time of a known one, smoothed by an alpha-beta filter that starts anew after a gap of more than ten seconds; a packet that is not newer repeats the previous position. Unknown transmitters, weak signals and the order of the measurements have no influence; without a known transmitter the position is empty.",
 ["histories", "inputs"], "every sequence of calls with measurements and time gaps from an alphabet up to the bound",
 "The standalone position estimation has no test.",
 ["standalone_algorithms/position_estimation/src"], [("estimator pipeline", "standalone_algorithms/position_estimation/src")], ["estimated position"],
 "all call histories up to the bound are executed against a reference model")
prop("C26", "Standalone pedometer and orientation filter agree with the navigation core",
 "The standalone pedometer and orientation filter give the same steps, step lengths and angles as the ones inside the navigation core for the same sensor readings, for all gains, and the standalone pedometer also however the readings (without gaps) are split into calls. All copies of the vector and quaternion operations, in-place ones with the same operand included, obey the usual arithmetic; normalisation leaves zero as it is.",
 ["histories", "inputs"], "every sequence of waveform segments and sensor readings from an alphabet up to the bound, several batch sizes; vectors and quaternions of a lattice",
 "No test compares the two copies.",
 ["standalone_algorithms/pedometer/src/pedometer.cpp", "standalone_algorithms/complementary_filter/src/complementary_filter.cpp", "src/sensor_fusion/quaternion.cpp", "src/vector3d.cpp"], [("two copies of each algorithm", "standalone_algorithms")], ["steps, angles, results of operators"],
 "both copies are executed in lock step on every history up to the bound; the arithmetic is compared with an independent one")
prop("C27", "Altitude is estimated from the ranges of the strongest transmitters",
 "Ranges are taken in ascending order, and each whose sphere does not reach that of a shorter one already taken is dropped. With at least four transmitters of the level left (not in line), the horizontal position is the least-squares solution of the range equations relative to the shortest one, and the altitude is the sum of (height + vertical part of the range) / range over those whose range reaches that far; with fewer, or none that reaches, there is none. It is finite for positive ranges and, for different ranges, the same for every order of the measurements; other levels' and unknown transmitters do not matter. The client reports it, when enabled, with the message that completes the signal window.",
 ["inputs"], "every combination of ranges from an alphabet, every order of measurements",
 NOTEST + "altitude is not exercised.",
 ["src/trilateration.cpp"], [("altitude calculation", "src/trilateration.cpp")], ["altitude"],
 "exhaustive over the range alphabet, against an independent computation")
prop("C28", "Radio map likelihood prefers particles near the fingerprint position",
 "With enough measurements from the level's radio map, the weights of particles are inversely proportional to 0.1 m plus their distance from the fingerprint position and sum to one; with too few all particles weigh the same; with no fingerprint position none has weight. The sampling centre and the weight of a single point follow the fingerprint position of the last prepared epoch alone: with too few measurements there is none, whatever was calculated before or for another level. Whether an update or a mutation is possible depends only on the number of measurements from the level's radio map. A point is in the intersection area exactly when it is within every measured range.",
 ["inputs", "configurations", "histories"], "every combination of signals from an alphabet, particle sets and modes",
 NOTEST + "the likelihood is not exercised.",
 ["src/likelihood/likelihood_radiomap.cpp", "src/likelihood/likelihood.cpp"], [("particle weights", "src/likelihood/likelihood_radiomap.cpp")], ["weights, centres"],
 "exhaustive over the signal alphabet, against an independent computation")
prop("C29", "A path is free exactly when it stays in an allowed area and off obstacles",
 "A path is reported free exactly when all of it lies inside one allowed zone of the level and it touches no obstacle in it; a point is inside the allowed area exactly when it is in a zone and outside all obstacles. The result does not depend on the direction of the path or the orientation of the polygons.",
 ["inputs"], "every path of lattice points on maps with rooms, holes and concave outlines, both polygon orientations",
 NOTEST + "barrier geometry is not exercised.",
 ["src/barriers_geometry_builder.cpp", "src/level_geometry.cpp"], [("level geometry", "src/level_geometry.cpp")], ["passability of paths and points"],
 "exhaustive over the lattice, exact oracle")
prop("C30", "The client passes each message through its stages and reports the result",
 "For every message the client updates the radio window and the motion, detects the floor (by fingerprints with the fingerprint algorithm or the radio map setting, else by transmitters), computes the indoor position on it with the configured algorithm, and the satellite position. On a floor both are combined and post-processed on the floor of the combined position; without one, or when no usable signal was heard for the no-signal time, a satellite position is reported as it is, else the last position stays. The output is that position in the geographic coordinates of its level, with its radius, source and (if enabled) altitude; the orientation is the valid device or calculated azimuth, clockwise from north, or counter-clockwise from east with the ENU setting, whatever the source. Without any position the status tells why. The state reports steps and the last indoor and satellite positions.",
 ["histories", "configurations"], "every history over radio, GNSS, NMEA and motion messages up to the bound, all combinations of the client's own switches",
 NOTEST + "a stage skipped, out of order or given the wrong data shows only in particular histories.",
 [CL], [("the loop over the messages", CL), ("choice of the estimators", CL)], ["navigate() outputs", "getStates()"],
 "the client is executed in lock step with an independent assembly of its stages (each of which is decided by its own property) on every history up to the bound")
prop("C31", "The memory a client needs does not grow with the length of the log",
 "While the user keeps moving (standing still, the signal window is kept on purpose), the memory a navigation client holds reaches a limit that depends on the kind of messages, their rate and the settings, not on how many have been given before: however long signals, steps, pressure, fixes and other messages repeat, nothing accumulates; transmitters heard once leave nothing behind. A destroyed client leaves nothing behind.",
 ["histories", "configurations"], "every repeated cycle of blocks of messages up to the bound, all configurations, one message per call and in batches",
 NOTEST + "a test log is too short for growth to matter, and only particular mixtures of messages fill a particular buffer.",
 [CL, "src/measurements/measurement_preprocessor.cpp", "src/sensor_fusion/pedometer.cpp", "src/level_estimator/barometer.cpp", "src/position_postprocessor/polynomial_fit.cpp"], [("windows and buffers of the stages", "src")], ["bytes in use"],
 "every cycle of blocks up to the bound is repeated 900 times on a real client; bytes in use (allocator statistics) are compared between the earlier and the later rounds and after destruction")
prop("C32", "Incomplete or degenerate maps and extreme settings never break the output",
 "Whatever a map lacks or repeats (no levels, transmitters, reference points or graph; all of them in one place, in line or outside of the outline; empty, equal or foreign fingerprints; the same transmitters on several levels; flat outlines; empty names of objects), and with any setting at an end of its range, each message gives one output and one state, without a crash, a hang or undefined behaviour. An output is an error without a position, or a finite position on a level of the map, with a positive radius, inside the level's bounding box (to within a centimetre, unless satellite positions outside are allowed), indoor unless a fix was given. (Levels have an outline and settings.)",
 ["inputs", "configurations", "histories"], "every map of a list of degenerate ones x algorithms x histories up to the bound; every extreme setting (thorough: every pair)",
 NOTEST + "degenerate maps and limits of settings are not tested at all.",
 [CL, "src/level_collector.cpp", "src/knn/knn_utils.cpp", "src/triangulation.cpp", "src/position_postprocessor/position_postprocessor.cpp"], [("no guard of its own: each stage has to cope", "src")], ["navigate() outputs", "getStates()"],
 "invariants checked after every call of every history up to the bound, under ASan/UBSan")
prop("C33", "Clients in different threads, on one map or several, do not affect each other",
 "Clients that share a map, or have maps of their own, may be created, used and destroyed in different threads without any synchronisation: no client, estimator or map reader writes to anything the other thread reads or writes (the reference counts of the map aside), so whatever the schedule, each client gives exactly the outputs and states it gives when it runs alone. Maps may be built in different threads at the same time.",
 ["schedules", "histories", "configurations"], "every pair of configurations x histories of both threads up to the bound; all interleavings of each by independence",
 NOTEST + "a conflict on hidden shared state shows only under particular schedules.",
 [CL, "src/knn/knn_utils.cpp", "src/level_collector.cpp"], [("no state outside of the objects", "src")], ["navigate() outputs", "getStates()"],
 "dynamic partial-order argument: the dependency relation of both threads is computed by a happens-before monitor (ThreadSanitizer) on the real code; when it is empty, one execution represents every interleaving of that pair of histories; the results are compared with the sequential ones")
