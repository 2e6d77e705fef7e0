"""Source of truth for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PC="gradslam/structures/pointclouds.py"; RG="gradslam/structures/rgbdimages.py"; SU="gradslam/structures/utils.py"
GU="gradslam/geometry/geometryutils.py"; PU="gradslam/geometry/projutils.py"; SE="gradslam/geometry/se3utils.py"
FU="gradslam/slam/fusionutils.py"; IS="gradslam/slam/icpslam.py"; PF="gradslam/slam/pointfusion.py"
IU="gradslam/odometry/icputils.py"; IC="gradslam/odometry/icp.py"; GI="gradslam/odometry/gradicp.py"; GT="gradslam/odometry/groundtruth.py"
DU="gradslam/datasets/datautils.py"; TU="gradslam/datasets/tumutils.py"; TM="gradslam/datasets/tum.py"; IL="gradslam/datasets/icl.py"; SC="gradslam/datasets/scannet.py"
CF="gradslam/config/cfgnode.py"

prop("C01","All views of a point-cloud batch describe the same data after any history",
"After any history of constructing, indexing, cloning, detaching, appending to, scaling, offsetting, rotating, transforming, projecting and assigning attributes of a batch of point clouds, its list view, zero-padded view, validity mask, per-cloud point counts and attribute-presence flags all describe exactly the same points, normals, colours and features. Entries outside a cloud's own points are zero in every padded view and false in the validity mask. Converting a list of tensors to a padded tensor (with any target size and padding value) keeps every entry and pads the rest, and converting back with the original sizes returns the original list.",
["histories","inputs"],"every sequence of public operations on a batch, for every batch size, every mix of cloud sizes (ragged, equal, empty clouds) and every subset of attributes",
"The tests read one view after one operation on one fixed cloud; stale-cache and padding-leak faults need a particular order of reads, writes and derived operations on a ragged batch.",
[PC,"gradslam/structures/structutils.py"],[("lazy dual representation with invalidation","Pointclouds setters, _compute_padded, *_list properties"),("validity mask","Pointclouds.nonpad_mask")],
[("list / padded caches","two lazily synchronised copies of every attribute","Pointclouds")],["every public getter after every operation"])

prop("C02","Point-cloud arithmetic and rigid motion act on exactly the real points",
"Adding, subtracting, multiplying, dividing, rotating, rigidly transforming (applied before or after) or pinhole-projecting a batch changes every real point exactly as the mathematical operation says, with per-cloud operands applied to their own cloud; rotations and transforms rotate normals by the same rotation and leave their translation out, and colours, features and other attributes are unchanged. The out-of-place forms leave their operand unchanged and return what the in-place forms produce.",
["inputs","histories"],"every batch (ragged or equal, any attributes), every scalar / tensor operand, single or per-cloud matrix, pre- or post-multiplication, chained in any order",
"The tests sample one simple cloud, freshly constructed from lists; they never chain out-of-place operations on a ragged batch nor vary which view is cached.",
[PC],[("masked arithmetic on padded view","Pointclouds.offset_, scale_, rotate_, transform_, pinhole_projection_"),("operators","Pointclouds.__add__/__sub__/__mul__/__truediv__/__matmul__")],None,["points/normals of operand and result"])

prop("C03","Appending, indexing and copying point clouds lose, mix or share nothing",
"Appending keeps each cloud's existing points first and in order followed by the appended points, with every attribute row still attached to its own point, and rejects batches of different size or attributes without changing anything. Indexing by integer, slice, list, integer tensor or boolean mask returns exactly the selected clouds in order. A clone and an appended-to batch never share memory with the originals they were made from, so later in-place changes to one never show in the other.",
["histories","inputs"],"every sequence of append / index / clone / detach / mutate over several live batches, with uniquely tagged points, every index form, and clouds with no points",
"The tests append or clone once and compare values; sharing shows only when a later in-place change to one object is observed through another.",
[PC],[("append","Pointclouds.append_points"),("selection","Pointclouds.__getitem__"),("copies","Pointclouds.clone, detach, to")],None,["both operands after each step, storage addresses"])

prop("C04","Derived RGB-D maps always reflect the current images, intrinsics and poses",
"After any history of replacing depth, colour, intrinsics or poses, switching channel layout in place or by copy, indexing, cloning, detaching and reading derived maps, the vertex map, normal map, their global versions and the missing-depth mask of an RGB-D batch are those of its current depth, intrinsics, poses and layout, exactly as a freshly built batch with the same contents gives. Layout conversion only permutes channels, and a clone is independent of its original.",
["histories","inputs"],"every sequence of reads, assignments, layout switches, indexing and cloning, for every batch size, sequence length, image size and both channel layouts",
"The existing tests read derived maps of freshly built objects; a stale cache needs read, then write or layout switch, then read of a different map.",
[RG],[("lazy derived maps with invalidation","RGBDImages setters and _compute_*"),("layout switch","RGBDImages.to_channels_first_/to_channels_last_"),("indexing / cloning of caches","RGBDImages.__getitem__, clone")],
[("derived-map caches","vertex, normal, global vertex, global normal maps and depth mask","RGBDImages")],["every public getter after every operation"])

prop("C05","Vertex and normal maps obey the pinhole camera model at every pixel",
"In every RGB-D batch each pixel with positive depth has a local vertex whose third coordinate is that depth and which projects through the frame's intrinsics back to that pixel; its global vertex is the frame's pose applied to it. Pixels without positive depth have zero vertices and normals, locally and globally. Each local normal is the unit cross product of the forward differences of vertices along the row and along the column (the last row and column reuse their neighbour's difference; zero when the product vanishes), and the global normal is it rotated by the pose.",
["inputs"],"every batch size, sequence length, image size, layout, intrinsics with and without skew, depth with any pattern of missing values, and every rigid pose or none",
"The tests compare one stored sequence against one stored result; they do not vary intrinsics per batch element, missing-depth patterns or poses.",
[RG,PU],[("back-projection","RGBDImages._compute_vertex_map"),("normals","RGBDImages._compute_normal_map"),("pose application","RGBDImages._compute_global_vertex_map/_compute_global_normal_map")],None,["vertex/normal/global maps"])

prop("C06","RGB-D frames become point clouds with one correctly attributed point per pixel",
"Converting single-frame RGB-D batches to point clouds yields, per frame and in row-major pixel order, exactly one point for every pixel with positive depth (or for every pixel when missing depths are kept) carrying that pixel's own global or local vertex, normal and colour. The optional downsampling used for tracking keeps exactly the valid pixels whose row and column are multiples of the ratio, and its map counterpart keeps exactly the listed active points on such pixels. The frames passed in are not changed.",
["inputs","configurations"],"every batch size, layout, depth pattern (including frames with no valid pixel), downsampling ratio and coordinate choice",
"The tests use one fully recorded scene and compare shapes or a projection; mis-attribution needs per-pixel unique tags and ragged validity.",
[SU,IU],[("mask selection","pointclouds_from_rgbdimages"),("strided selection","downsample_rgbdimages, downsample_pointclouds")],None,["points/normals/colours of the result"])

prop("C07","Projective conversions are mutually inverse and agree with the camera model",
"For all points, depths and invertible camera matrices, homogenising then dehomogenising returns the point, unprojecting a pixel at a depth then projecting it returns the pixel with that depth, the closed-form inverse of an intrinsics matrix is its matrix inverse, and normalising then denormalising pixel coordinates returns them. Points with zero homogeneous scale or depth give finite results, and every leading batch shape, single or per-batch matrices and both floating precisions give the same result as computing each element alone.",
["inputs"],"every leading batch shape, dtype, point, depth, intrinsics (with skew) and image size",
"The tests check a handful of shapes and one random draw; broadcasting and zero-scale corner cases are not crossed with each other.",
[PU,GU],[("homogeneous conversion","homogenize_points, unhomogenize_points"),("projection","project_points, unproject_points"),("inverse","inverse_intrinsics"),("pixels","normalize_pixel_coords, unnormalize_pixel_coords, create_meshgrid")],None,["return values"])

prop("C08","Rigid-motion algebra is exact: exponentials, inverses, compositions, quaternions",
"The exponential of every twist is the matrix exponential and a proper rigid motion, at any magnitude including zero and beyond a half turn; inverses, compositions and relative transforms of rigid motions satisfy the group laws and agree with plain matrix algebra; a quaternion's rotation matrix is orthonormal with determinant one, unaffected by the quaternion's sign, and applying a transform to points or normals matches the matrix definition. Ground-truth odometry between two posed frames is the inverse of the first pose times the second.",
["inputs"],"every twist, quaternion, rigid motion, point set and supported batch shape, in single and double precision",
"The modules have no direct tests of the group laws; the few stored examples have small angles and unit batch.",
[SE,GU,GT],[("exponential","se3_exp, so3_hat, se3_hat"),("algebra","inverse_transformation, compose_transformations, relative_transformation, *_transform_3d"),("quaternion","quaternion_to_rotation_matrix"),("application","transform_pointcloud, transform_normals, transform_pts_3d, transform_pts_nd_KF"),("odometry","GroundTruthOdometryProvider.provide")],None,["return values"])

prop("C09","ICP alignment: true nearest neighbours, rigid result, never a worse fit",
"Every linearised alignment step pairs each source point with its true nearest target point, drops exactly those farther than the distance threshold, and forms the point-to-plane equations of the remaining pairs; the damped solve satisfies the damped normal equations. The aligned transform is always a proper rigid motion, includes the initial estimate (identity when none is given), never has a larger point-to-plane error than that estimate, and recovers the true motion of an overlapping cloud displaced by a small rigid motion. A step that does not reduce the error leaves the estimate unchanged, and one that clearly reduces it is taken, however late in the run it comes.",
["inputs","configurations"],"every source/target cloud with normals, initial estimate, iteration count, damping and threshold",
"The tests align one stored pair of frames; rejected steps, thresholds and initial estimates are not exercised together.",
[IU,IC],[("linearisation","gauss_newton_solve"),("damped solve","solve_linear_system"),("trust-region loop","point_to_plane_ICP"),("batching","ICPOdometryProvider.provide")],None,["returned transforms and indices, linear systems"])

prop("C10","Differentiable ICP follows its smooth damping law and converges to the motion",
"The gradient-friendly alignment always returns a proper rigid motion that includes the initial estimate, applies the documented smooth damping and smooth step scaling at each iteration within their documented bounds, leaves already-aligned clouds in place, and recovers the true motion of an overlapping cloud displaced by a small rigid motion. For a batch of clouds each transform depends only on its own pair and honours every configured parameter.",
["inputs","configurations"],"every source/target cloud with normals, initial estimate, iteration count, damping, threshold and smooth-LM parameters",
"The tests align one stored pair with default parameters.",
[IU,GI],[("smooth LM loop","point_to_plane_gradICP"),("batching","GradICPOdometryProvider.provide")],None,["returned transforms"])

prop("C11","Map-to-frame association is exactly the in-view, similar, unique best matches",
"A map point is reported visible in a frame exactly when it is a real point in front of the camera whose projection falls inside the image, at its nearest pixel. It is kept as similar exactly when its distance to the frame's point at that pixel is below the distance threshold and the dot product of their normals is above the (non-negative) angle threshold, so pixels without depth never match. The final association has at most one map point per pixel and one pixel per map point, and for each pixel picks the similar point with the highest confidence and, among equals, the closest.",
["inputs"],"every map (ragged, repeated points, ties), frame, intrinsics, pose, and thresholds",
"The tests use constructed examples with at most one competing point per pixel and one pose.",
[FU],[("visibility","find_active_map_points"),("similarity","find_similar_map_points, are_points_close, are_normals_similar"),("uniqueness","find_best_unique_correspondences, find_correspondences")],None,["returned association tables"])

prop("C12","Point fusion conserves points and averages matches by confidence",
"Fusing a frame into a map turns each matched map point into the confidence-weighted average of itself and its pixel (position, normal and colour), adds the pixel's confidence to it, leaves every unmatched map point as it was (up to rounding), and appends exactly the unmatched pixels with valid depth, once each, with their own attributes and a confidence that falls off as a Gaussian of the point's distance from the camera, never below a small positive floor. The map passed in is changed only when in-place update is requested, and then it is the returned map.",
["inputs","histories"],"every map and frame batch (ragged maps, empty map, frames with missing depth, either layout), every association and sigma, repeated over several frames",
"The tests fuse one frame and compare aggregate values; they do not look at the input map after an out-of-place call, at ragged maps, or at several rounds.",
[FU,PF],[("confidence","get_alpha"),("merge and append","fuse_with_map"),("pipeline","update_map_fusion, PointFusion")],None,["map before and after, returned map"])

prop("C13","Aggregation mapping appends exactly the valid frame points and nothing else",
"Updating a map by aggregation yields, per batch element, the previous map followed by the frame's valid points with their global positions, normals and colours in pixel order, so the map size is the sum of valid pixels over all frames. The map passed in is changed only when in-place update is requested, and then it is the returned map; frames are never changed.",
["inputs","histories"],"every sequence of frames, depth pattern (including frames with nothing valid), layout and in-place choice",
"The tests aggregate one or two stored frames; the history and in-place dimensions are not sampled.",
[FU,IS,SU],[("aggregate","update_map_aggregate"),("append","Pointclouds.append_points")],None,["map before and after each step"])

prop("C14","SLAM runs report a consistent trajectory and map for every odometry choice",
"With ground-truth odometry the recovered trajectory equals the given poses and the map is the fusion of the frames at those poses; with tracking odometry the first pose is the given one (identity when none is given), each next pose is the estimated relative motion applied to the previous pose, and for a static camera or small known motion it reproduces the true trajectory. Processing a sequence at once gives the same poses and map as stepping through its frames one by one, and the sequence, its poses and, when in-place update is not requested, the map and live frame passed to a step are left unchanged.",
["inputs","histories","configurations"],"every odometry choice, mapping method, batch size, sequence length, presence or absence of poses, and in-place choice",
"No test runs the SLAM systems at all.",
[IS,PF],[("sequence loop","ICPSLAM.forward"),("step","ICPSLAM.step, _localize, _map"),("fusion mapping","PointFusion._map")],None,["returned poses and map, inputs after the call"])

prop("C15","Batch elements never influence each other",
"For every batched operation - vertex and normal maps, point-cloud conversion and motion, association, fusion, aggregation, odometry and complete SLAM runs - the result for one batch element is the result of processing that element alone, whatever the other elements contain and however many points they have.",
["inputs","configurations"],"every batch composition, including elements with no valid depth or very different sizes, and every permutation of the batch",
"Tests use fixed batches and never compare with the single-element run.",
[PC,RG,FU,IU,IC,GI,IS],[("padding and masks","Pointclouds, fusionutils"),("per-element loops","odometry providers")],None,["results for whole batch vs each element alone"])

prop("C16","Gradients flow through mapping and odometry to the sensor inputs and are correct",
"Map points, normals and colours, recovered poses of gradient-based odometry, and every geometric conversion are differentiable with respect to the depth, colour, intrinsics and pose inputs they depend on: gradients exist, are finite (also with missing depths and zero-length padding) and agree with finite differences wherever the discrete choices (matching, validity) do not change. Cloned and copied containers keep the gradient path; detached ones cut it and leave the original attached.",
["inputs","configurations"],"every input scene, both layouts, every differentiable operation and both mapping methods",
"A single gradient check of the confidence function exists; no test differentiates a map or a trajectory.",
[PC,RG,FU,IU,SE,PU],[("differentiable kernels","all tensor code"),("smooth LM","point_to_plane_gradICP"),("detach / clone","Pointclouds, RGBDImages")],None,["autograd gradients under anomaly detection vs finite differences"])

prop("C17","Sequence windowing selects exactly the requested frames of each trajectory",
"For every dataset configuration, the windows of a trajectory are exactly those obtained by taking frames from start (inclusive) to end (exclusive, or the last frame when end is unset), spacing frames inside a window by dilation plus one, starting consecutive windows stride frames apart (by default one full window extent) and keeping only windows that lie entirely inside the range. For TUM the range counts colour readings and the windows run over the readings that could be associated. Every window has the requested length and belongs to a single trajectory, the windows of a trajectory are listed together and in order, and the reported name or frame identifiers are those of the frames delivered.",
["configurations","inputs"],"every trajectory length and set of trajectories and every valid combination of sequence length, dilation, stride, start and end, for each dataset reader",
"The tests sample a few parameter settings on a real dataset that is not present, so they mostly skip.",
[TM,IL,SC],[("window generation","TUM/ICL/Scannet __init__")],None,["number of windows, frames delivered, frame names"])

prop("C18","TUM association pairs readings one-to-one, in tolerance, closest first",
"Associating timestamped colour, depth and pose readings uses each reading at most once, pairs only readings less than the tolerance apart after the offset, always prefers the closest remaining pair, misses no pair that could still be made from unused readings, and returns the matches in time order. Parsing the text files keeps every data line's values and skips comments and blank lines; poses are converted to the rigid motion of their translation and normalised quaternion.",
["inputs"],"every set of timestamps (irregular, duplicated near-ties, disjoint), offset, tolerance, and file contents with comments, blank lines, commas, tabs and invalid lines",
"Only one stored sequence, which is absent, is associated by the tests.",
[TU,TM],[("greedy association","associate"),("parsing","read_file_list, read_trajectory"),("pose","transform44, TUM._homogenPoses")],None,["returned matches, parsed lists"])

prop("C19","Dataset readers deliver time-consistent frames, poses and intrinsics",
"Every item of a dataset reader holds, frame by frame, the colour image, depth and pose recorded for the same instant, in order; depth is the stored value divided by the dataset's scale, images and intrinsics are resized consistently, poses are expressed relative to the first frame of the window (so the first is identity), and the relative transforms compose to the poses. Channel order, colour normalisation and each return flag change only the layout, scale or presence of what they name, and length and indexing (including reading twice, and in any order) agree.",
["configurations","inputs"],"every reader, synthetic trajectory, output size, flag combination and item order",
"Tests of the readers need dataset files that are not in the repository.",
[TM,IL,SC,DU],[("loading","TUM/ICL/Scannet __getitem__"),("preprocessing","_preprocess_color, _preprocess_depth, _preprocess_intrinsics, _preprocess_poses"),("scaling","scale_intrinsics, normalize_image, channels_first, poses_to_transforms")],None,["items of readers over generated dataset folders"])

prop("C20","Configuration merging changes exactly the listed keys and keeps types",
"Merging a configuration from another configuration, a file or a list of overrides sets exactly the listed keys to the given values, leaves every other key untouched, never adds an unknown key unless new keys are allowed, and rejects a value whose type differs from the existing one except for the documented conversions, leaving that entry unchanged. As documented, a string value is first read as the Python literal it spells, if it spells one. The source of the merge is not modified and later changes to it do not show in the target.",
["inputs","histories"],"every configuration tree, every override set (nested, unknown, deprecated, renamed, mistyped) and every merge order",
"The tests merge two or three hand-written trees.",
[CF],[("merge","merge_from_file, merge_from_other_cfg, merge_from_list, _merge_a_into_b"),("typing","_check_and_coerce_cfg_value_type, _decode_cfg_value")],None,["whole tree before and after"])

prop("C21","Freezing a configuration blocks assignment and merging; clones are independent",
"After a configuration is frozen, assigning any attribute or merging any value at any depth is refused and changes nothing, until it is defrosted, and the frozen state is reported correctly at every depth. A clone has equal contents and frozen state but is fully independent: no later change to either shows in the other.",
["histories","inputs"],"every configuration tree and every sequence of freeze, defrost, clone, assign and merge",
"The tests freeze one tree once and try one or two assignments.",
[CF],[("freeze","freeze, defrost, is_frozen, __setattr__"),("clone","clone")],None,["whole tree after each attempt"])

prop("C22","Configurations survive dumping to text and loading back",
"Dumping a configuration of supported value types as text and loading that text, from a string or a file, reproduces an equal tree with the same keys, nesting, values and value types (sequences may come back as lists), and a tree containing a value of an unsupported type is refused. Loading a Python-file or dictionary description gives the same tree as building it directly.",
["inputs"],"every configuration tree over supported scalar and sequence values, including empty trees, nested trees, unusual strings, signed, large and extreme numbers",
"One small sample file is round-tripped by the tests.",
[CF],[("dump","CfgNode.dump"),("load","CfgNode.load_cfg and helpers"),("validation","_valid_type")],None,["loaded tree vs original"])

prop("C23","Library functions never modify the tensors and objects they are given",
"Apart from operations documented as in place, no library call changes the value, shape, layout or gradient flag of any tensor, array, container or configuration passed to it, so calling the same function twice on the same inputs gives the same answer.",
["inputs","histories"],"every public function and container method, float32 and float64 inputs, contiguous or not, with and without gradients",
"Tests look at return values only.",
[GU,PU,SE,FU,IU,DU,TU,RG,PC],[("copy before write","out-of-place forms, dataset utilities")],None,["tensor version counters and bytes before and after each call"])

prop("C24","Malformed arguments are rejected cleanly and leave state unchanged",
"A public constructor, setter or function that checks its arguments rejects a value of the wrong type with a type error and a wrong rank, size, batch or channel count with a value or index error (operators with their documented not-implemented error, functions that assert with an assertion error), at the call that received it; the objects and tensors involved are left exactly as they were, also when the call updates in place, and stay usable. Valid arguments at the edge of the documented domain (empty map, element without points, frame without depth, one pixel row, column or image, one-frame sequence, one-element batch, absent optional arguments) are accepted and give results of the documented form.",
["inputs","histories"],"every public entry point and every documented argument perturbed in type, rank, size, batch or channel count, before and after other operations",
"The tests try a fixed list of bad arguments and never look at the object afterwards.",
[PC,RG,PU,GU,SE,FU,IU,IC,GI,GT,IS,PF],[("argument checks","isinstance / shape checks at the head of public functions"),("setter checks","_assert_set_padded, _assert_set_list, _assert_shape")],None,["raised exception and object state"])

prop("C25","Visual exports show the actual points, colours and frames",
"Exporting a point cloud or an RGB-D sequence for display contains exactly the points of the requested batch element (a subset of the requested size without repeats when a maximum is given), each with its own colour or normal, colours brought to the display range (0..255 for figures, 0..1 for open3d) by the range of that element; a sequence gives one colour (and, if asked for, depth) picture per frame in order, in either channel layout, with depth shown at one stated power-of-ten scale. Nothing of the exported object changes.",
["inputs","configurations"],"every batch element, attribute subset, colour range, maximum point count and frame sequence",
"The tests only check that exporting does not fail.",
[PC,RG,"gradslam/structures/structutils.py"],[("plot export","Pointclouds.plotly, RGBDImages.plotly, numpy_to_plotly_image"),("point-cloud library export","Pointclouds.open3d")],None,["exported figure data"])

prop("C26","Label remapping follows the published class tables pixel by pixel",
"Converting semantic label images between the supported label sets maps every pixel's class by the published table and sends every class the target set lacks to the background class, and colouring a label image paints each pixel with exactly the colour its class has in the palette. The labels a ScanNet reader delivers, at any output size and however the name of the label set is capitalised, are exactly such classes of stored pixels, never a blend, and its palette lists the same set. Shapes are preserved and the inputs are unchanged.",
["inputs"],"every label image (all class ids of the label set, any shape or dtype) and palette",
"The tests map one small image and check shapes.",
[DU,SC],[("remap","ScanNet label conversion (nyu40_to_scannet20 / scannet label utilities)"),("colouring","create_label_image")],None,["mapped images"])

prop("C27","Dataset readers refuse what they cannot serve, and serve the rest exactly",
"A dataset reader refuses at construction, with a type error for an argument of the wrong type and a value error for one outside its documented range (window length or stride not positive, negative start or dilation, end not after start, unknown sequence, list file or class set), and with a value error for a dataset folder that is incomplete or misnamed for what is asked of it; a malformed pose is refused when its window is read. Whatever it does not refuse it serves exactly: what is broken in one sequence does not change the items of another, data that was not asked for need not be there, and no file of the dataset is changed.",
["configurations","inputs"],"every reader, dataset folder (complete, incomplete, misnamed, with malformed list or pose files) and constructor argument",
"Tests of the readers need dataset files that are not in the repository and never use wrong arguments.",
[TM,IL,SC],[("argument checks","TUM / ICL / Scannet __init__"),("folder checks","TUM / ICL / Scannet __init__ and helpers")],None,["exceptions and delivered items of readers over generated folders"])

prop("C28","Leaving an optional argument out, or naming it, never changes the result",
"Every public function, method and constructor gives the same result when an optional argument is left out as when it is given its published default, when arguments are passed by position in the published order as when passed by name, and when names come in any order. Published defaults are the ones the documentation states.",
["inputs","configurations"],"every public entry point and every subset of its optional arguments",
"Tests use one calling form per function.",
[GU,PU,SE,FU,IU,GI,GT,IS,PF,RG,PC,CF],[("signatures","public functions and constructors"),("defaults","fallbacks for None arguments")],None,["results of differently spelled calls"])

prop("C29","Sequences on disk become a map that lies on the recorded scene",
"Reading recorded sequences with a dataset reader, batching them with a loader, wrapping them as RGB-D frames and running SLAM agree on one geometry: with recorded poses the map of every batch element consists of points on the recorded surface of its own sequence, in the coordinates of the window's first frame, with the recorded colours and the surface's normals, one point per valid pixel when nothing is merged; the recovered trajectory is the recorded one; and registering the frames recovers the recorded motion without being shown it. Readers are plain values: items own their data, and copies, pickles, loader workers and other readers on the same folder deliver the same items.",
["configurations","inputs","histories"],"every reader, recorded scene and trajectory, stored and delivered size, window shape, channel layout, colour option, batch and sampling order",
"No test runs more than one component of this chain on data from disk; reader tests need absent data.",
[TM,IL,SC,RG,IS,PF,DU],[("reader output","__getitem__ of the readers"),("frames and maps","RGBDImages, pointclouds_from_rgbdimages, ICPSLAM, PointFusion")],None,["global map, trajectory and items"])

prop("C30","Results depend on values, not on storage, precision defaults or modes",
"The result of every public function and method depends only on the values of its operands: it is the same (up to rounding) for operands in any memory layout (strided, sliced, transposed, freshly contiguous), with or without gradient tracking, inside or outside no-gradient and inference mode, for frames stored channels first or last, and whatever the process-wide default floating type is. Outside the dataset utilities, floating results have the precision of the floating operands: single stays single, double stays double and is not computed in single precision (only nearest neighbours are looked up in it), and the single-precision answer agrees with the double-precision one as far as the problem's conditioning allows.",
["inputs","configurations"],"every public entry point with operands of either precision in any memory layout, under every gradient mode and default floating type",
"Tests use freshly built contiguous single-precision tensors with the default settings.",
[GU,PU,SE,FU,IU,GI,GT,IS,PF,RG,PC,"gradslam/structures/structutils.py"],[("dtype and device propagation","constructors of intermediate tensors (eye, zeros, ones, arange) throughout"),("views and reshapes","view / reshape / permute in structures and geometry")],None,["results of the same call on differently stored operands"])

prop("C31","Calls leave the process alone and ignore earlier and concurrent calls",
"A call of any public function, method, configuration operation or dataset reader, accepted or refused, leaves the process as it found it: random states, default floating type, gradient mode, thread counts, numeric error handling and print options, warning filters, working directory, environment, signal handlers and open files are as before. Its result is what it would be in a process in which nothing else had run: it does not depend on calls made earlier, on what the caller did to their results (which belong to the caller, who may overwrite them), or on calls made at the same time by other threads on objects of their own. Deep copies, pickles and torch.save round trips of point clouds, frames, odometry providers, SLAM modules, unfrozen configurations and dataset readers equal the original, work like it and share nothing with it.",
["histories","schedules","inputs"],"every public entry point, valid or malformed call, after every series of other calls and alongside calls in other threads, under changed ambient settings",
"Each test runs one call in one thread and looks only at its result; nothing looks at the process, runs calls side by side or overwrites a result before the next call.",
[GU,PU,SE,FU,IU,GI,GT,IS,PF,RG,PC,TM,IL,SC,DU,CF,"gradslam/structures/structutils.py"],[("module-level state","all modules of gradslam"),("reader state","dataset readers"),("object state","Pointclouds, RGBDImages, CfgNode")],None,["state of the process and results before and after other calls"])

prop("C32","Everything stays on its device, and moving moves everything",
"Point clouds, frames, odometry and SLAM work on whatever device their inputs live on. Given arguments that are all on one device, a public function or method never combines tensors of two devices in a way torch refuses, leaves its arguments where they are, and returns tensors and structures that lie wholly on that device (views and maps computed later included) with the values it gives on the CPU. Moving a structure with to, cpu or cuda moves every tensor it holds, cached ones included, reports the new device, leaves the original where it was and shares no memory with it, unless it already is there and no copy was asked for: then it is the same object. A structure built with device= lies on that device; point clouds built without it lie on the device of their points. Lists assigned to a cloud are taken to its device. Frames given in parts on several devices, padded values of another device and appending a cloud of another device are refused with ValueError. SLAM built with device= (CPU if not given) takes frames from any device and gives maps and poses on its own. Gradients cross devices.",
["inputs","histories"],"every public call on every device of its arguments, every sequence of moves and cached views of a structure, SLAM on every device with frames from every other",
"The tests run on the CPU alone, where every tensor is on the right device whatever the code does; nothing follows the device of each tensor through a call.",
[GU,PU,SE,FU,IU,GI,GT,IS,PF,RG,PC,DU,"gradslam/structures/structutils.py"],[("device","Pointclouds, RGBDImages, ICPSLAM, PointFusion"),("to/cpu/cuda","Pointclouds, RGBDImages")],None,["device of every tensor of arguments and results","tensors made, moved and combined during a call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        if len(p["title"]) > 80: print("TOO LONG", p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
