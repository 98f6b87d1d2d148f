"""Fill the tables of DESIGN.md from tools/DESIGN.in.md, properties.jsonl, known_findings.json, seeded/ and tools/bugs.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {
 "P01": ("elements, both widths", "index formula of the infinite extension per mode"),
 "P02": ("elements, both widths, ramp end values", "index formulas (mirror through the edge, straight line, ramp)"),
 "P03": ("elements, widths, constants, statistic lengths; `torch.empty` memory undefined", "statistic of the nearest samples, lower median"),
 "P04": ("elements, widths, constants of every axis", "1-d oracle applied axis after axis, right-justified options"),
 "P05": ("elements, widths", "1-d oracle on the one axis"),
 "P06": ("kernel size, input size (unbounded integers in range)", "inequalities: windows fit, minimal, balanced (linear integer arithmetic)"),
 "P07": ("all widths", "pair order reversed, zero-filled leading axes"),
 "P08": ("widths", "exception if and only if negative; unknown names"),
 "P09": ("all cells of the buffer, signal position, region of the other axes", "1-d oracle inside the region, every other cell unchanged"),
 "U01": ("leaf values, index", "tree broadcast defined on nested lists"),
 "U02": ("item values", "item-wise function over repeated single items; identity-only, equal and alike-looking items"),
 "U03": ("leaf values", "common length per level, lifting defined on trees"),
 "U04": ("axis integers, slice bounds", "range(ndim) arithmetic"),
 "S01": ("input size, kernel size (stride, dilation listed)", "last window fits, next does not (linear integer arithmetic); counted windows for small sizes"),
 "S02": ("input size, widths", "count of real positions per window"),
 "K01": ("elements, kernel weights, strides", "pad oracle then sliding dot product per axis"),
 "K02": ("elements, kernel weights, stride, dilation", "sliding dot product"),
 "K03": ("elements, kernel sizes, strides", "mean of (real) window elements"),
 "K04": ("sigma (exp uninterpreted)", "exp weights cross-multiplied, Hermite polynomials, parity, monotony; kernel histories"),
 "K05": ("elements, sizes, kernel sizes", "size formulas; default stride = explicit stride = kernel size"),
 "K06": ("elements of all calls, length and order of the history", "fresh layer"),
 "F01": ("elements, edge and smoothing weights (branches on the shortcut explored)", "pad, correlate edge axis, then smoothing axes in order"),
 "F02": ("elements, level, sigma, smoothing weights", "published kernels; weights divided by their sum; zero on constants"),
 "F03": ("elements, epsilon", "sum of second differences / p-th root of the sum of p-th powers"),
 "F04": ("elements, amount, threshold", "x + amount * (x - blur), gated by |x - blur| >= threshold"),
 "M01": ("both images, maximum, epsilon (log uninterpreted)", "textbook formula over chosen axes"),
 "M02": ("both images, K1, K2", "textbook formula from window moments; fractions cleared"),
 "M03": ("both images", "the code against itself (swapped, identical)"),
 "M04": ("both images, weights (fractional power uninterpreted)", "per-scale terms from the textbook formula, 2x2 means"),
 "M05": ("both images", "differences of component oracles"),
 "M06": ("both (three) images, K1, K2, scale weights", "inequalities; similarity split into factors proved bounded one by one, the code shown equal to their product"),
 "C01": ("mosaic", "index formula"),
 "C02": ("image / mosaic", "colour table of the alignment"),
 "C03": ("mosaic, weights, biases", "mirrored window dot product, colour position table"),
 "C04": ("mosaic, clamp limits", "Malvar filters as published, measured pixels kept"),
 "C05": ("the letters of the alignment, shapes", "membership, parity, channel counts"),
 "C06": ("mosaic, image, grey level, clamp limit", "the code against itself (re-mosaicked, transposed, flipped, cropped); flat images"),
 "X01": ("elements, weights", "sum of weight * power"),
 "X02": ("base, exponent (fractional power uninterpreted), epsilon", "sign * |x|^e"),
 "X03": ("elements", "pairwise product"),
 "X04": ("elements (order statistics by sorting terms)", "definitions"),
 "X05": ("elements, every random draw", "window at the drawn offset; each offset reachable (satisfiable), no other"),
 "X06": ("elements, draws, sigma, k", "x + sigma * draw, k * poisson(x/k) + ..."),
 "X07": ("diagonal, distance (atan uninterpreted with bounds, monotony, slope)", "geometry; scale invariance"),
 "G01": ("elements of all calls", "memory terms before and after; same call again; neighbouring settings in between"),
 "G02": ("elements, output weights", "symbolic derivative of the forward terms against what autograd computes on terms"),
 "G06": ("both images, factors, level", "the code on the parts: combination, sign, level"),
 "G07": ("the image", "the code on the mirrored or transposed image, mirrored back"),
 "G08": ("the image", "the code on the whole image, cropped"),
 "G09": ("the image", "the code asked in the plainest way"),
 "G05": ("option numbers, images, order of calls", "the options before; a layer of one's own"),
 "G04": ("every element of the batch", "the code on single images, single channels, the reordered and the repeated batch"),
 "G03": ("elements", "contiguous copy; float64 run"),
}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
walls = json.load(open(f"{ROOT}/tools/walls.json")) if os.path.exists(f"{ROOT}/tools/walls.json") else {}
rows = []
for p in props:
    a, b = W.get(p["id"], ("", ""))
    rows.append(f"| {p['id']} | {a} | {b} | {p['why_tests_cant']} | {walls.get(p['id'], '')} |")
fx = "\n".join("* " + x[len("fixed: property="):] for x in json.load(open(f"{ROOT}/known_findings.json"))["fixed"])
res = json.load(open(f"{ROOT}/tools/bugs.json")) if os.path.exists(f"{ROOT}/tools/bugs.json") else {}
br = ["| bug | property | what it breaks | needs | caught by (now) | first |", "|---|---|---|---|---|---|"]
for i in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    r = res.get(i, {})
    br.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {r.get('now', '')} | {r.get('first', '')} |")
s = open(f"{ROOT}/tools/DESIGN.in.md").read()
s = s.replace("@TABLE@", "\n".join(rows)).replace("@FIXED@", fx).replace("@BUGS@", "\n".join(br))
s = re.sub(r"^44 properties|44 properties, all", f"{len(props)} properties, all", s)
open(f"{ROOT}/DESIGN.md", "w").write(s)
print(len(rows), "properties", len(br) - 2, "bugs")
