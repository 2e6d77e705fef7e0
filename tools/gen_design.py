"""Rewrites the generated part of DESIGN.md (between the markers) from the checks, seeds and the texts below."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
T = {
"C01": "Specified: all list, padded, mask, count and has-* views of a batch describe the same clouds. A padding-free model (plain float64 arrays per cloud) undergoes the same random operation (construction from lists / padded, assignment through either view, arithmetic, motion, append, index, clone) and *every* public view is compared after *every* step, in a random read order, because the defects of lazily built dual storage depend on which view was materialised before. Tests read one view of one small equal-sized batch.",
"C02": "Oracle: float64 mathematics on the padding-free model, on every real point; padding must stay zero and operands untouched; in-place form, out-of-place form and operator must agree; `own_cloud` uses one matrix/offset per cloud so that a leak between clouds shows.",
"C03": "Rows carry unique tags in all attributes, so conservation is checked exactly (no lost, duplicated, swapped or re-paired row). Clones, appended and detached batches are additionally written through their storage to show that no memory is shared. A rejected append must leave both batches byte-identical.",
"C04": "Random histories of assignments, layout switches, device moves, indexing and reads on frames with and without poses; oracle 1 is a numpy camera of the *current* contents, oracle 2 a freshly built twin. `stale` reads a random subset of maps before and after each single assignment. A refused assignment must change nothing.",
"C05": "Every pixel of every map is judged: depth kept as z, re-projection hits its own pixel, global = pose applied, normal = normalised cross product of the forward differences, invalid pixels zero. `scene` checks planes and rendered walls.",
"C06": "Colours encode (batch,row,column), so each produced point is traced to its pixel; point, normal and colour are compared with that pixel's maps for every option combination, sparse and empty depth, and for the map/frame down-sampling used by odometry.",
"C07": "Formulae, round trips, scale invariance over cameras with mirrored, very long and very short focal lengths and off-image principal points, leading-shape and matrix-batching combinations in both precisions, plus zero / tiny / negative projective scale finiteness.",
"C08": "The exponential is compared with a Taylor scaling-and-squaring exponential over magnitudes from 0 over 1e-12 to 1e4; quaternion, inverse, composition, relative-motion identities, with translations from 1e-4 to 1e6, quarter and half turns, equal motions and batches of up to 300 (`scales`); ground-truth odometry against numpy.",
"C09": "Equations, filtering and damping against float64 brute force; iteration histories against an independent Levenberg-Marquardt; the returned error is never worse than the start; known motions are recovered; degenerate input keeps the estimate; an iteration that stands still although every damping it can have reached would clearly reduce the error is a violation (runs of up to 35 iterations, dampings up to 1e12). Single-precision nearest neighbours: near-ties are excluded by construction of the oracle, not by tolerance.",
"C10": "A float64 model of the documented smooth damping law (stable logaddexp form) predicts every step, up to 31 of them; law-sensitive regimes (rising error, clamp) are generated on purpose and counted as required events; gradients of the motion and single-precision steep-slope runs are included.",
"C11": "Brute-force float64 oracle per stage (active, similar, unique) and for the composed association; points within rounding of a threshold, half pixel or border are not judged. `huge` uses more than 2^24 table entries, where single-precision index arithmetic breaks.",
"C12": "Per-point conservation model of the fusion formulae (confidence-weighted means, appended pixels, Gaussian confidence), map-by-map over several rounds, with snapshots of all inputs around every call.",
"C13": "Map after an update = previous map then exactly the valid pixels of the frame, in order, for both entry points; frames with nothing valid; earlier maps stay as they were.",
"C14": "Whole runs with a recording odometry provider: the pose of each frame must be the reported estimate applied to the previous pose, stepping by hand must equal the whole run, a static camera stays put, re-rendered motion is recovered (median of 8).",
"C15": "Metamorphic: each batched operation on the batch, per element, permuted, repeated and with hostile neighbours (NaN-free extreme values, empty, larger) must give the same element results.",
"C16": "Autograd is observed (exists, finite) and compared with central differences at three step sizes along random directions for every differentiable input of every stage; `attachment` checks detach/clone/to keep or cut the graph as documented.",
"C17": "Frames are number-coded in their pictures, so delivered windows are read off the pixels and compared with independent window arithmetic.",
"C18": "One-to-one, in-tolerance, nothing missed, greedy-closest checked on the result by definition; also order independence. Parsers on generated text (comments, tabs, commas, blank lines).",
"C19": "Item parts against the recorded pictures, depth, poses; resizing consistency of intrinsics by ray coding (pictures whose colour encodes the source pixel).",
"C20": "Reference merge on plain dictionaries incl. coercion rules; whole tree compared after accepted and refused merges; `single` enumerates type pairs.",
"C21": "Histories over a tree and clones with whole-tree snapshots after each attempt at every depth.",
"C22": "Random trees with hostile scalars and strings through every route (text, file, python, dict).",
"C23": "Byte snapshots (values, strides, storage behind views, gradient flags, all public views) of every argument of each call in a catalogue of 68 public entry points; long histories in which results and operands stay under watch.",
"C24": "The same catalogue with every malformed variant of every argument; exception type, argument snapshots, and a valid call afterwards compared with a twin that saw no malformed call. Edge workloads for the smallest valid inputs.",
"C25": "Figures are decoded (arrays, base64 pictures) and compared with the exported object; subsets must be rows of the cloud without repetition, with their own colours.",
"C26": "All class ids, shapes and dtypes against the published tables.",
"C27": "A valid generated folder is served first; then one argument or folder entry is malformed and construction must refuse with the stated exception, or serve exactly the unaffected items. Folder contents are hashed around it.",
"C28": "Each call with optional arguments left out / explicit published default / positional / keyword / shuffled order, bit-equal; an argument with another value is shown to matter (counted as `sensitive:`), so the comparison is not vacuous. Published defaults are written down in the check.",
"C29": "The broad guarantee: an analytic wall is rendered along a trajectory and written in each dataset's own format; the map that comes out of reader, DataLoader, RGBDImages and SLAM must lie on the wall in first-frame coordinates with the right colours and normals. No other check crosses all component borders at once. Readers are also pickled, copied, run in loader workers, and their items overwritten.",
"C30": "Each catalogued call is re-run with strided/sliced/transposed operands, gradient tracking, no_grad and inference mode, default dtype float64, channels-first frames, and in single precision. Tolerances are scaled by the measured sensitivity of the very call, so ill-conditioned inputs are not judged.",
"C31": "One catalogued call (valid or malformed), configuration session or reader is run between two snapshots of the process (three random states, 30 settings, open files), also under non-default settings. The same call is run in a freshly forked process and again after a random series of other calls (biased to the same function, same shapes in another precision) whose results are overwritten. Two to four threads make calls on their own objects with a trace function that yields between random lines of gradslam (about 250,000 injected switches per quick run; overlapping pairs of calls are counted). Objects are deep-copied, pickled and torch.saved, compared, overwritten and used.",
"C32": "A device sanitizer (vlib/devsim.py): a torch function mode tracks, for every tensor, the accelerator it pretends to live on while the arithmetic runs on the CPU, applies torch's rules (made on the device asked for, computed on the device of the operands, moved by copying, mixed operands refused except zero-dimensional CPU values and CPU indices, no numpy of accelerator memory), and so sees on a machine without accelerators what would fail on one with several. All catalogued calls are run on cuda:0, cuda:1 or cuda:3 and compared with the CPU run; containers walk between devices with random caches built; SLAM runs on one device with frames from another. The tests and every other check run on the CPU, where all of this is invisible.",
}
seeds = {}
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))
tech = json.load(open(os.path.join(H, "tools", "techniques.json")))
out = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    c = importlib.import_module("checks." + i.lower()).CHECK
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(T[i] + "\n")
    out.append("* Workloads (quick / thorough cases before scaling): " + ", ".join("%s %d / %d" % (f.name, f.quick, f.thorough) for f in c.families))
    out.append("* Monitors that must have decided something, else the run is inconclusive: " + ", ".join(c.require))
    out.append("* Counted as one situation: " + c.rule)
    if c.assumptions:
        out.append("* Assumptions: " + "; ".join(c.assumptions))
    out.append("* Planted: " + "; ".join("`%s` (needs %s)" % s for s in seeds.get(i, [])) + "\n")
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
a, b = "<!-- generated by tools/gen_design.py -->\n", "<!-- end generated -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(out) + s[s.index(b):]
known = json.load(open(os.path.join(H, "known_findings.json")))["fixed"]
by = {}
for k in known:
    _, p, c, what = k.split(" ", 3)
    by.setdefault((c, what), []).append(p.split("=")[1])
a, b = "<!-- fixes -->\n", "<!-- end fixes -->\n"
s = s[:s.index(a) + len(a)] + "\n".join("* `%s` (%s) %s" % (c, " ".join(p), w) for (c, w), p in by.items()) + "\n" + s[s.index(b):]
open(f, "w").write(s)
