"""Per-property design notes for DESIGN.md: what is specified, generated, judged, and the bounds."""
NOTES = {
"C01": """*Specification*: `TrackBuild.tla` (union-find as a state machine over links, checked against the declarative definition
of valid connected components), `MonTracks.tla` (the declarative definition as judge). *Bounds*: TLC enumerates all link sets on 3x2
features up to 5 (thorough 12) links; the real `tracking.create_tracks_manager` is run on every set up to 4 (6) links and on
random graphs up to 8 images with chains, stars, cycles, shuffled duplicates. Cost: ~25 s.""",
"C02": """*Specification*: `TracksStore.tla` (two indexes and the single relation they must mirror), `MonTM.tla`. Every (relation,
operation) pair of the small model is replayed; after every operation the driver dumps every view. Cost: ~30 s.""",
"C03": """*Specification*: relational definitions in `TracksStore.tla`, used by `MonTM.tla` to judge query results (common observations,
connectivity, all_common_tracks, graphs, sub-managers, merges).""",
"C04": """*Specification*: the relation of `TracksStore.tla` before and after; hand-built files of versions 0-2 are described
by rows so that the judge knows the expected relation or that an error is due.""",
"C05": """*Specification*: `MapGraph.tla` (graph with both ends of each reference, cascades of removals), `MonMap.tla`. The driver dumps the
whole graph after each operation; refused operations must leave the dump unchanged.""",
"C06": """*Specification*: `CopyIso.tla` (a heap: copying allocates a fresh cell; checked: no two handles share), `MonCopy.tla`.""",
"C07": """*Specification*: `PoseAlg.tla` (rational rigid motions: rotations as integer matrices over a denominator), `RigPose.tla`,
`MonPose.tla`. The oracle is exact; real results are compared after quantisation.""",
"C08": """*Specification*: `PersistRec.tla`, `MonSame.tla`: flattened rows of every attribute before and after the round trip.""",
"C09": """*Specification*: `Store.tla` (last write wins, frame condition), `MonStore.tla`. Values are canonical digests; each kind has a generator
of values and of odd names; layouts are folders with lists, masks, GPS and GCP judged by definitions in TLA+.""",
"C10": """*Specification*: `PairSel.tla`, `MonPairs.tla`: must/may sets for k-nearest with ties, union, order, report.""",
"C11": """*Specification*: `Matching.tla` (storage and one-to-one-ness), `MonMatch.tla`.""",
"C12": """*Specification*: `FixedPoint.tla` (reals as 1e-6 fixed point with square root, sine, cosine and arctangent, whose laws TLC
checks on a grid) and `CameraModel.tla` (the ten models). Every recorded projection, bearing, parameter view, pixel mapping is
recomputed in TLA+. Bearings are judged forwards (their projection must be the pixel). Cost: ~20 s.""",
"C13": """*Specification*: `MaskAlg.tla` (pixel permutation of each orientation; TLC checks that they are bijections, that each
is undone by its inverse and that two turns compose), `MonMask.tla`. Points on cell borders may take either cell.""",
"C14": """*Specification*: `FeatQueue.tla`: producers, consumers, bounded queue, end mark, W threads running the tasks in order. TLC
checks that every image is processed once and (under fairness) that the run ends; with a non-atomic count TLC finds the deadlock
that was fixed in the code. Behaviours of the model steer the real threads through the fake dataset's load/save calls; in addition
the threads are stalled at every line of the pipeline in turn (four sizes each) or delayed at random. `MonFeat.tla` judges
the event order, held images, stored features, words and reports. Cost: ~45 s.""",
"C15": """*Specification*: `ExifMeta.tla` (calendar, sexagesimal angles, rotations of yaw-pitch-roll and omega-phi-kappa; TLC checks
the calendar month by month and the angle conventions), `MonExif.tla` (priority and fallback of every tag, calibration look-up,
overrides). The driver writes its own TIFF directories into JPEG files so that any tag combination can occur. Cost: ~15 s.""",
"C16": """*Specification*: `GeoFrame.tla` (WGS84 in fixed point: radii, earth-centred position, axes, third-order local expansion;
TLC checks the ellipsoid equation and the axes over a grid of the globe), `MonGeo.tla` (conversions, control point lists with
grouping by position, weighted reference, exports). The export monitor only compares with pyproj applied point by point, so it
does not depend on how the linearised transformation is built. Cost: ~10 s.""",
"C17": """*Specification*: `SimFrame.tla` (integer similarities over the 24 axis rotations acting on points, poses and rig
cameras: images invariant, composition, three points determine a similarity and collinear ones leave a rotation, optimality
condition of exact fits; TLC checks all 20k combinations), `MonAlign.tla` (selection of the method, exact fit, least-squares
conditions, orientation prior, biases). Positions before and after come from the code; ground truth is only used to make the
measurements. Cost: ~25 s.""",
"C18": """*Specification*: `PanoFaces.tla` (the six views as integer rotations; TLC checks over a grid of directions that every one is
seen, strictly inside only once, and that the ring of side views turns around the vertical), `MonUndist.tla` (which images appear,
poses, cameras, metadata, where each observation reappears, picture sizes, and the direction shown by each pixel, using pictures
whose colours encode positions). Cost: ~15 s.""",
"C19": """*Specification*: `RayMeet.tla` (integer rays through a point: TLC checks on 31k configurations that the normal equations are
solvable exactly when rays are not all parallel, that the common point is the only solution, and that extra, reversed or wrong rays
have the expected effect on acceptance), `MonTri.tla` (acceptance recomputed from the rays in fixed point, closest point by its normal
equations, refined cost, tracks of whole reconstructions, epipolar angles, and outlier thresholds FIXED and AUTO with medians).
Cost: ~40 s.""",
"C20": """*Specification*: `TwoView.tla` (the 24 lattice rotations x translations x points: epipolar constraint, exactly one of the four
decompositions has the points in front, mirrored and rigid variants, homography of a plane, vote of several points), `Ransac.tla` (the
estimator loop with local optimisation and early stopping: members, monotone best score, termination), `LineSets.tla` (all small point
sets with the size of the largest collinear subset; every behaviour is replayed through `ransac_line`), `MonMotion.tla`. Found four
defects (see below), one a hang. Cost: ~60 s.""",
"C21": """*Specification*: `Neighborhood.tla`/`NearOps.tla` (all observation graphs of 4 images x 3 points x rig groupings: closed under rig
instances, interior and boundary disjoint, within the maximum, code-shaped walk equals the definition; 103k states, 41k behaviours, a
sample replayed), `MonBundle.tla` (frame conditions; the whole robust objective in fixed point, with the five losses as logarithms,
arc tangents and roots of `FixedPoint.tla`). The driver records raw residuals only, at the result and at +-steps along every free
coordinate; which terms count, their weights and the comparison are the specification's. Found four defects (uninitialised alignment
rows and GPS accuracy, wrong GPS mean of 3-camera rigs, failure with control points seen outside of the neighborhood). ~50 s.""",
"C22": """Incremental.tla: a queue of pairs, the free images, the growing reconstruction and the finished ones (157 states, one rig instance); the monitor walks every recorded run through it, reading the queue from the public pair functions and the tries, steps and results from the report. BundleClock.tla: counters of points and shots since the last bundle or retriangulation; its behaviours are replayed through ShouldBundle and ShouldRetriangulate. Geometry is decided with a similarity supplied by the driver and verified by the monitor. False alarms met: rigs whose first pair has an inconsistent scale (adjustment may end elsewhere; truth is only required without rigs), pose after a resection with outliers (within the inlier threshold).""",
"C23": """RigGroup.tla: names are sequences of tokens; one step places one image (5928 initial name pairs x pattern lists). Found and repaired: compute_relative_pose averaged rotation vectors and positions in per-instance mean frames, which are not equivariant (wrong relative poses as soon as headings differ and the cameras do not all look the same way); the window of proposed instances could never hold the last one. Calibration is also judged on rigs with one noisy instance (the mean over instances is then visible), on cameras in two groups and on clusters whose positions come from GPS; `create_rigs_with_pattern` runs with its actions replaced by ones that store a chosen reconstruction, so that accepting or rejecting a round and what it stores are decided.""",
"C24": """`Submodels.tla`: images on a line, a grouping, an overlap; a run may stop after any number of submodels and the next starts over (92016 behaviours; TLC checks cover, ownership, freshness and that close pairs share a submodel). `MonSub.tla` decides the memberships of real splits from the distances, and the aligned frames against the frame the driver built. Found and repaired: groups of images without GPS and single images made the split fail.""",
"C25": """`Export.tla`: images, features, tracks and reconstructions with the numbering each format uses (what refers to what); `MonExport.tla` decides every parsed file: the driver reads the files back by the documentation of the formats, the monitor compares projections, poses, numbering and observations. Ten defects found and repaired (see the list of fixes). Not decided: the camera types a format can not express.""",
"C26": """`DenseRun.tla`: the three passes over the shots with an unreadable picture and stops before any stored result, over 4 neighbour graphs and up to 3 runs (TLC checks that stops alone never change the result); 120 of its 5056 behaviours are replayed in `compute_depthmaps` on a textured wall each run. `DenseRow.tla`: agreement of three views on a row. `MonDense.tla` decides cleaning and pruning exactly in rational numbers for random integer geometry (24 orientations, non-square pixels), estimation on scenes that shift by whole pixels, neighbours, depth range and meshes. Found and repaired: a shot without raw depth maps around it crashed the process, and a shot without a clean map was given the points of its neighbour.""",
"C27": """`StatsHist.tla` gathers lengths, counts and bounding boxes over reconstructions one after another (TLC: the histogram is complete, its weighted sum is the number of observations, the box is the tightest); its configurations are built as real reconstructions and run through the real functions. `MonStats.tla` recomputes in fixed point every statistic of random sets of reconstructions: histograms of track lengths (own observations or those of the tracks), residuals per type with the 4 pixel cutoff and 30-bin histograms, errors against positions with camera biases and against control points, cameras and rig cameras of the largest reconstruction, processing times, area, features, heatmap files and decimation. Found and repaired: the area always included the origin; heatmaps and residual pictures of several cameras overwrote each other, and failed with several reconstructions.""",
"C28": """`GcpBook.tla` is the book of control points under adding, removing, annotating, saving and loading (TLC: names are never reused, one annotation per image, loading what was saved gives it back); its histories are replayed in the real manager. `MonGcp.tla` keeps the book itself and decides every operation of random histories on random files, and the analysis of annotated scenes (triangulated points, reprojection and geopositional errors, wrong annotations, alignment, resection, merging and splitting) in fixed point. Found and repaired: the expected position of control points was computed in a frame other than that of the reconstruction; files without measurement time, as the documentation describes them, could not be loaded.""",
"C29": """`PipeRun.tla`: the steps of the pipeline over images that arrive in two groups, each step with its prerequisites and with interruptions after some of its writes (TLC: metadata and features only grow, and the five steps once more in order always give the whole dataset, whatever came before). A sample of its histories is replayed through the real command line (`command_runner`) on rendered scenes of textured planes, the cut made by a storing function that stops the process at its k-th call, and `MonPipe.tla` decides the files after every step, the quality of the reconstruction and that of an extension. Found and repaired: extend_reconstruction failed as soon as one image of the dataset had no tracks. Reruns of matching give different matches (FLANN and RANSAC are seeded by chance), so determinism is not claimed.""",
"C30": """`TrackWalk.tla` walks a track place by place and drops a key point at the first place at the step from the last one; TLC checks on all small tracks (back and forth, stops) that the sampler's rule, which only looks at the points of the track, gives the same key points, apart by the step and none skipped. Its tracks are replayed at random places of the Earth in the real `sample_gpx`; `MonGpx.tla` decides samples (place at their time, distance on the ellipsoid, nothing beyond the step skipped), interpolated positions, bearings, the degrees, minutes and seconds written with their references, frames of videos and the script `update_geotag`. Found and repaired: positions interpolated across the 180th meridian were on the other side of the Earth, tracks with some or no elevations failed, `update_geotag --reconstruction_file` always failed. Not decided: a time exactly at the end of the track counts as outside (as the code says).""",
}
CAUGHT = {}
MISSED = """
Small edits tried besides (single lines changed at random places, several hundred) and still not reported, with the reason: C19 a robust
triangulation whose first inliers are kept, a cached rotation used again (same values); C20 the threshold inside local optimization,
scores of the model before refinement (the result is within the tolerance either way); C22 reorderings of outlier rejection, of which
minimum of inliers starts a reconstruction, and of resection with exactly five points (results within the noise of the scenes); C23 nearest
instead of first neighbour, the camera centres of found rig cameras (same for exact rigs); C24 the deviation of soft constraints
(weak against the positions), a longitude test that never decides; C25 columns of formats that other values of the file fix; C26 the
cleaning epsilon (scenes of unit size), the variance of patches within a factor of two, depths over the maximum that are never tried;
C27 cached values, positions tested on the first shot only; C28 removing the error of a removed point (never read again).
"""

