CORE_INC = ["include", "src", "/usr/include/eigen3"]
CORE_SRC = """geometry triangulation knn/knn_utils likelihood/likelihood likelihood/likelihood_radiomap
measurements/measurement_preprocessor position_estimator/position_estimator_knn position_estimator/position_estimator_zone
position_estimator/position_estimator_outdoor position_postprocessor/navigation_time_smoother position_postprocessor/polynomial_fit
position_postprocessor/position_postprocessor position_postprocessor/position_smoother_ab position_postprocessor/position_smoother_lstsq
sensor_fusion/complementary_filter sensor_fusion/quaternion sensor_fusion/pedometer sensor_fusion/sensor_fusion
level_estimator/barometer level_estimator/level_estimator level_estimator/level_estimator_radiomap level_estimator/level_estimator_transmitters
level_estimator/level_history navigation_client_impl barriers_geometry_builder level point level_collector level_geometry radiomap vector3d trilateration""".split()


def core(*names):
    return {"src": ["src/%s.cpp" % n for n in names], "inc": CORE_INC, "O0": ("src/trilateration.cpp",)}


MAP = ["barriers_geometry_builder", "level", "point", "level_collector", "level_geometry", "radiomap"]
SA = "standalone_algorithms/"
GROUPS = {
    "core": core(*CORE_SRC),
    "map": core(*MAP),
    "vec": core("vector3d"),
    "level_base": core("level_estimator/level_estimator", "level_estimator/level_history", "level_estimator/barometer"),
    "level_impl": core("level_estimator/level_estimator_radiomap", "level_estimator/level_estimator_transmitters"),
    "knnutils": core("knn/knn_utils", "triangulation", "geometry"),
    "geom": core("geometry"),
    "preproc": core("measurements/measurement_preprocessor"),
    "sa_ped": {"src": [SA + "pedometer/src/pedometer.cpp", SA + "pedometer/src/vector3d.cpp"], "inc": [SA + "pedometer/include"], "flags": ["-Dnavigation_core=sa_pedometer"]},
    "sa_cf": {"src": [SA + "complementary_filter/src/%s.cpp" % f for f in ("complementary_filter", "quaternion", "vector3d")], "inc": [SA + "complementary_filter/include"], "flags": ["-Dnavigation_core=sa_filter"]},
    "fusion": core("sensor_fusion/complementary_filter", "sensor_fusion/quaternion", "sensor_fusion/pedometer"),
    "sa_pos": {"src": [SA + "position_estimation/src/%s.cpp" % f for f in ("measurement_preprocessor", "nearest_transmitter_estimator", "position_smoother")], "inc": [SA + "position_estimation/include"]},
    "tools": {"src": ["tools/verification/helpers.cpp"], "inc": ["", "include", "src"]},
    "trilat": {"src": [SA + "trilateteration/src/trilateration.cpp", SA + "trilateteration/src/beacon.cpp"], "inc": [SA + "trilateteration/src"]},
}

CHECKS = {
    "C06": {"harness": ["c06.cpp"], "groups": ["level_base", "map", "vec"]},
    "C07": {"harness": ["c07.cpp"], "groups": ["core"]},
    "C08": {"harness": ["c08.cpp"], "groups": ["preproc", "map", "vec"]},
    "C17": {"harness": ["c17.cpp"], "groups": ["knnutils", "map", "vec"]},
    "C21": {"harness": ["c21.cpp"], "groups": ["geom", "map", "vec"]},
    "C20": {"harness": ["c20.cpp"], "groups": ["map", "vec"]},
    "C22": {"harness": ["c22.cpp"], "groups": ["map", "vec"]},
    "C29": {"harness": ["c29.cpp"], "groups": ["map", "vec"]},
    "C05": {"harness": ["c05.cpp"], "groups": ["core"]},
    "C14": {"harness": ["c14.cpp"], "groups": ["core"]},
    "C09": {"harness": ["c09.cpp"], "groups": ["core"]},
    "C10": {"harness": ["c10.cpp"], "groups": ["core"]},
    "C11": {"harness": ["c11.cpp"], "groups": ["core"]},
    "C12": {"harness": ["c12.cpp"], "groups": ["core"]},
    "C13": {"harness": ["c13.cpp"], "groups": ["core"]},
    "C15": {"harness": ["c15.cpp"], "groups": ["core"]},
    "C16": {"harness": ["c16.cpp"], "groups": ["level_base", "level_impl", "knnutils", "map", "vec"]},
    "C24": {"harness": ["c24.cpp"], "groups": ["trilat"]},
    "C18": {"harness": ["c18.cpp"], "groups": ["core"]},
    "C19": {"harness": ["c19.cpp"], "groups": ["core"]},
    "C26": {"harness": ["c26.cpp"], "groups": ["fusion", "map", "vec", "sa_ped", "sa_cf"], "hgroups": ["fusion"], "hsrc": [("c26_ped.cpp", "sa_ped"), ("c26_cf.cpp", "sa_cf")]},
    "C01": {"harness": ["c01.cpp"], "groups": ["core"]},
    "C02": {"harness": ["c02.cpp"], "groups": ["core"]},
    "C03": {"harness": ["c03.cpp"], "groups": ["core"]},
    "C04": {"harness": ["c04.cpp"], "groups": ["core"]},
    "C23": {"harness": ["c23.cpp"], "groups": ["core", "tools"]},
    "C27": {"harness": ["c27.cpp"], "groups": ["core"]},
    "C28": {"harness": ["c28.cpp"], "groups": ["core"]},
    "C30": {"harness": ["c30.cpp"], "groups": ["core"]},
    "C25": {"harness": ["c25.cpp"], "groups": ["sa_pos"]},
    "C31": {"harness": ["c31.cpp"], "groups": ["core"]},
    "C33": {"harness": ["c33.cpp"], "groups": ["core"], "san": "thread"},
    "C32": {"harness": ["c32.cpp"], "groups": ["core"]},
}

# what each quick / thorough run enumerates (written to the evidence file)
BOUNDS = {
    "C01": "alphabet of 12 events x 6 configurations, histories of 4 (thorough 5) events, every one of the 2^(n-1) partitions into calls, empty calls and older messages inserted; long logs (2/3 segments of 20+ messages) cut at every place and in pieces of every size; barometer logs of 300 samples",
    "C31": "15 blocks of messages, every cycle of 2/3 blocks x 6 configurations x (single messages, batches), 900 rounds each",
    "C33": "two threads, each creating, using and destroying two clients: 21 pairs of configurations x 64 histories of 2 events (thorough: 512 of 3) x 4 (thorough: 24) histories of the other thread, on a shared map; 6 x 64 with maps of their own; each stands for all its interleavings",
    "C32": "23 degenerate maps x 6 configurations x histories of 4/5 of 8 events; x 32 combinations of switches x histories of 3/4; 32 extreme settings (thorough: all pairs) x 6 configurations x histories of 4/3 of 6 events; 10 x 10 kinds of two levels x 6 configurations x 8 combinations of fingerprint switches x histories of 2/4; pauses of weeks; lassos of 300/120 events",
    "C02": "two clients: every interleaving of their calls (2/3 events each, creation and destruction included) x 6 configurations x pairs of configurations; 4/5 events under 3 heap/stack fill patterns; blocks that change the floor repeated in two clients; map dump before and after; every pair of 4 maps under every algorithm; lassos of 300/120 events",
    "C03": "histories of 4/5 events x 6 configurations x time bases around powers of two and offsets of more than 32 bits; barometer logs; walks; lassos of 300/120 events",
    "C04": "histories of 5/6 events over radio, GNSS, NMEA, sensors x 6 configurations; odd readings of 3/4; 16/32 switch combinations x histories of 3/4; runs along the edge; ASan/UBSan on; pauses of weeks; lassos of 200 to 300 events",
    "C05": "every assignment of 3 signal levels or silence to 7 transmitters on 2 levels, orders; 4/5 epochs on one estimator; client windows; 8 to 257 transmitters; lassos",
    "C06": "all detection sequences over 2 levels+none up to 11/13, over 3 levels+none up to 9/11, from a settled state 10/12, blocks of up to 9 equal detections, two estimators interleaved 9/10; lassos of 300/120 epochs",
    "C07": "block histories (sizes 1..150, pressures around the threshold, 3 detections) of 3/4 blocks warm-up, 3/4 blocks after 202 samples, foreign sensors, barometer off, messages of other kinds through the client; lassos of 300/120 blocks",
    "C08": "every single signal (6 ids x kinds x values) x every filter configuration; windows: configurations x 4/5 steps of signals and time gaps; streams of 6/8 from a filled window; standing still 5/6; 1 to 260 transmitters with up to 40 signals each; pauses of weeks; lassos of 300/120 steps",
    "C09": "positions (present or not, places, accuracies, delays) 2/3 steps x all switches; 4/5 steps over a small alphabet x all switches; 5/6 steps for the deviation recursion; client on floors with different origins; pauses of weeks; lassos of 300/120 steps",
    "C10": "3/4 epochs of 6+ input positions x delays x motion x switch combinations; rests of 6/7 epochs; graph lattice; client 5/6 events; smoothed positions 4/5 epochs x filters x time smoothing x stops; pauses of weeks; lassos of 300/120 epochs",
    "C11": "4/5 updates over 7 observations x delays x switches; tracks of 7/8 with gaps; post-processing 5/6 with floor changes; pauses of weeks; lassos of 300/120 updates",
    "C12": "5/7 updates directly, 6/8 regular ones, 5/6 through post-processing with floor changes; pauses of weeks; lassos of 300/120 updates",
    "C13": "4/5 updates over observations x delays x windows x weights x barriers; tracks of 6/7 blocks; post-processing 5/6; pauses of weeks; lassos of 300/120 updates",
    "C14": "3/4 epochs x fixes (places, accuracies, satellites) x delays x switches; sigma filter 5/6 epochs; client 4/5 events; pauses of weeks; averages over up to hundreds of fixes; lassos of 300/120 epochs",
    "C15": "every assignment of signal levels to the transmitters of an irregular radio map x K x modes x orders; triangles; 4/5 calls on one estimator over several levels; client windows; radio maps of up to 100/200 points; lassos",
    "C16": "every assignment of 3 levels or silence to all transmitters of a 3-floor map x power switch x orders; two epochs; fingerprint maps in both scoring modes; up to 40 levels with up to 40 transmitters",
    "C17": "all subsets of a 9/10 point irregular pool x 4/8 orders x edge limits; all subsets of a 4x4 lattice; general sets of up to 100/200 points",
    "C18": "waveforms of 4-6 segments out of 10 at 2/3 sampling periods; all periods and phases of regular walks; fusion 4/5; client with interleaved messages 3/4; pauses of weeks; lassos of 300/120 blocks",
    "C19": "4/5 blocks of readings x repetitions; rest attitudes on a grid x 3 orders; 2,000/20,000 readings of rotation; azimuth life times 3/4; angle reduction around multiples of pi/8; pauses of weeks; lassos of 300/120 blocks",
    "C20": "8/12+ latitudes x longitudes x offsets on a grid over the globe, both directions",
    "C21": "all segment pairs on a 4x4/5x5 lattice under 2/3 exact affine maps, points against segments on 6/8, rays against triangles and quadrilaterals, determinants",
    "C22": "all one-level maps of a pool, all pairs of levels in both orders, all sequences of 4/5 graph operations; up to 40 levels and 300 objects per level",
    "C23": "every documented setting alone and in pairs x values x order x odd entries; all settings at once; level settings; logs of up to 3/4 entries out of 20; maps of up to 3/4 features out of a pool in every order; end to end",
    "C24": "all sequences of 5/6 measurements over beacons x distances, unknown beacons, orders; call histories of 5/6 on one object; up to 300 beacons; lassos",
    "C25": "histories of 4/5 calls x delays, scans 4/5, packets, smoother tracks 5/6; pauses of weeks; lassos of 300/120 calls",
    "C26": "lock-step waveforms of 4-6 segments, batch sizes 1..200, filter blocks 4/5 x gains, vector and quaternion lattices; pauses of weeks; lassos of 300/120 batches",
    "C27": "every assignment of 4/7 ranges or none to 6 transmitters, both orders; places on a grid; client windows; 8 to 257 transmitters",
    "C28": "every assignment of signals, particle sets and modes; 3/4 epochs over two levels; circles around lattice points; up to 130 points; many particles; lassos",
    "C29": "all straight paths and bent paths (3 points) of lattice points on maps with rooms, holes and concave outlines, both ring orientations; outlines of many walls; paths of many points",
    "C30": "histories of 4/5 events x 6 configurations; 96 switch combinations x histories of 4/5; floor changes 4/5 with pauses around the no-signal time; pauses of weeks; lassos of 300/120 events",
}
for _k, _v in BOUNDS.items():
    CHECKS[_k]["bounds"] = _v
