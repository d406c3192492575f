TMF = ["opensfm/src/map/tracks_manager.h", "opensfm/src/map/src/tracks_manager.cc", "opensfm/src/map/python/pybind.cc"]
MECH = [dict(name="two hash indexes kept in step", where="opensfm/src/map/src/tracks_manager.cc")]
ST = [dict(name="tracks_per_shot_ / shots_per_track_", meaning="the (image, track) -> observation relation, indexed both ways", where="opensfm/src/map/tracks_manager.h")]
PS = [
 dict(id="C02", title="A TracksManager holds one image-track relation under any edit history",
  statement="After any sequence of adding, overwriting and removing observations and of restricting to sub-managers, the per-image view, the per-track view, single reads, id lists and counts of a TracksManager all describe one and the same map from (image, track) to the last observation written there and not removed since, with every field of the observation intact. Reading an absent observation, or listing or removing from an image or track that was never added, fails with an error instead of returning or changing anything.",
  quantifier=dict(over=["histories"], text="every edit history: one history for every (abstract state, operation) pair of the 2 images x 2 tracks x 2 values model, and random longer histories over 8 images x 14 tracks"),
  why_tests_cant="Unit tests add a handful of observations once and never interleave overwrites and removals; the two indexes can only drift apart along specific histories.",
  anchors=dict(files=TMF, state=ST, mechanism=MECH, observe_at=["pymap.TracksManager get_shot_observations / get_track_observations / get_observation / num_*"], hook_needed=None),
  technique="TLA+ (TLC) two-index model; all (state, operation) histories replayed in the real TracksManager; TLA+ monitor judges every dump",
  level_note="Exhaustive for the small model, random histories above it; trusts the stand-in binding layer. Whether ids whose last observation was removed stay listed is left open."),
 dict(id="C03", title="Track queries, sub-managers, graphs and merging agree with the observations",
  statement="For any stored tracks, the common observations of two images, the pair connectivity counts (optionally limited to given images and tracks), all_common_tracks with any threshold, the bipartite and weighted graphs and every sub-manager contain exactly what the stored observations imply, each shared track once and each observation attributed to the right image. Merging managers unifies exactly the tracks connected by shared (image, feature id) observations, losing no image of any track and modifying no input.",
  quantifier=dict(over=["inputs", "histories"], text="random observation sets with up to 8 images and 14 tracks built by edit histories, arbitrary filters including unknown ids, and any number of managers merged"),
  why_tests_cant="Each query has one hand-made example at most; agreement between the queries and the transitive closure in merging are statements about all observation sets.",
  anchors=dict(files=TMF + ["opensfm/tracking.py", "opensfm/src/foundation/union_find.h"], state=ST, mechanism=MECH + [dict(name="queries and graphs", where="opensfm/tracking.py common_tracks, all_common_tracks, as_graph, as_weighted_graph")],
   observe_at=["return values of the query functions"], hook_needed=None),
  technique="TLA+ relational definitions of every query (checked for consistency in TLC) used by a TLA+ monitor to judge the real query results",
  level_note="Random observation sets of bounded size; duplicate ids in a filter list and merges of managers giving one feature to two tracks are accepted with any consistent result."),
 dict(id="C04", title="Tracks survive saving and loading; malformed track files are rejected",
  statement="Saving tracks and loading them back, by file, string, dataset or undistorted dataset, restores exactly the same (image, track) observations with feature id, colour, segmentation and instance unchanged and coordinates and scale kept to 1e-5 relative (the file format stores no depth prior). Files of format versions 0, 1 and 2 load with their documented columns and defaults, while a missing file, an unknown version, a wrong column count or a non-numeric field raises an error.",
  quantifier=dict(over=["inputs"], text="random track sets with unusual ids, extreme values and semantic labels; random files of all three versions, well-formed and corrupted"),
  why_tests_cant="The tests round-trip one fixed manager; they do not cover every field, every route to disk, or corrupted files at any position.",
  anchors=dict(files=TMF + ["opensfm/dataset.py"], state=ST, mechanism=[dict(name="versioned text format", where="opensfm/src/map/src/tracks_manager.cc WriteToStreamCurrentVersion, InstanciateFromStreamV*")],
   observe_at=["TracksManager after instanciate_from_file/string, DataSet.load_tracks_manager"], hook_needed=None),
  technique="TLA+ monitor over the tracks relation judges save/load round trips and hand-built files of every version, valid and corrupt",
  level_note="Random inputs; ids with tabs or newlines are out of scope; images and tracks without any observation are not stored by the format."),
]
