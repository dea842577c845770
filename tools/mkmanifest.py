"""Writes /verif/MANIFEST.json and /verif/known_findings.jsonl's fixed entries from the tables here."""
import json, subprocess, sys
sys.path.insert(0, "/verif")
from props import PROPS
TECH = {
 "C01": "ASan+UBSan and leak accounting over random API histories with hostile arguments",
 "C02": "ThreadSanitizer with injected delays, plus byte equality across thread counts",
 "C03": "runtime oracle: independent decoder checks every converted pixel, under ASan+UBSan",
 "C04": "runtime oracle: independent decoder checks every converted pixel, under ASan+UBSan",
 "C05": "runtime oracle: independent decoder checks every converted pixel, under ASan+UBSan",
 "C06": "runtime oracle: independent DDS reader over saved files, under ASan+UBSan",
 "C07": "runtime oracle: independent KTX reader over saved files, under ASan+UBSan",
 "C08": "runtime oracle: independent PVR reader over saved files, under ASan+UBSan",
 "C09": "runtime monitor: support queries against observed conversion and saving",
 "C10": "fault injection: streams and devices failing at every byte, file snapshots",
 "C11": "runtime oracle: the same bytes through every source, round trips, under ASan+UBSan",
 "C12": "runtime oracle: raw pixel model of reads and writes, under ASan+UBSan",
 "C13": "runtime oracle: independent conversion model, under ASan+UBSan",
 "C14": "runtime oracle: pixel permutation model, under ASan+UBSan",
 "C15": "runtime oracle: bounds, metamorphic relations and reference filters, under ASan+UBSan",
 "C16": "runtime oracle: double-precision per-pixel model, under ASan+UBSan",
 "C17": "runtime oracle: double-precision normal map model, under ASan+UBSan",
 "C18": "runtime oracle: reference mip chain run in lock step, under ASan+UBSan",
 "C19": "runtime monitor: reference state machine in lock step over random histories",
 "C20": "runtime oracle: value snapshots around copies and moves, under ASan+UBSan",
 "C21": "runtime oracle: double-precision range model, under ASan+UBSan",
 "C22": "runtime oracle: tool output against a reference pipeline, sanitised tool binary",
 "C23": "fuzzed command lines and files on the sanitised tool, directory snapshots",
 "C24": "runtime oracle: distinguishable inputs located in the tool's output",
 "C25": "repeat-and-compare over poisoned memory and valgrind memcheck",
 "C26": "recording stand-ins for the encoder libraries watch every block, ASan+UBSan and ThreadSanitizer",
 "C27": "ThreadSanitizer with injected delays, plus equality with the same work done alone",
}
NOTE = ("Executions of the real code only: randomised (VERIF_SEED) and boundary workloads. Trusts the reference model "
        "in harness/, gcc's sanitizers and the system FreeImage library.")
EXTRA = {"C26": "The encoder libraries (git submodules) are absent, so they are replaced by stand-ins that record what they are "
                "given; the decoded quality of real encoders is not covered. " + NOTE}
NA = {}
checks = []
for p in sorted(TECH):
    if p not in PROPS:
        NA[p] = "Check not built yet."
        continue
    checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH[p],
                   "level": PROPS[p].get("level", "exploration"), "level_note": EXTRA.get(p, NOTE)})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "No hooks in /repo are needed: the checks use the public API, the tool binary and the sanitizers."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", sorted(NA))
# Repairs made in /repo: (property, start of the commit subject, what failed)
FIXED = [
 ("C03", "clamp NaN to the minimum", "NaN channels were cast to integers, which is undefined"),
 ("C04", "saturate 32-bit integer conversion", "values beyond the 32-bit integer range overflowed the cast instead of saturating"),
 ("C05", "encode values outside the normalized range of B10G11R11", "B10G11R11 values above one were clamped or encoded wrongly"),
 ("C05", "support the full range and NaN for E5B9G9R9", "large E5B9G9R9 values and NaN were encoded as garbage"),
 ("C12", "report the blue mask", "blueMask() returned the green mask"),
 ("C12", "keep the sRGB grayscale value", "setPixel() with grayscale conversion on sRGB images stored the wrong value"),
 ("C12", "saturate and round integer pixels", "integer pixels overflowed or truncated instead of rounding and saturating"),
 ("C12", "report the channel shifts", "channel shifts of 24/32 BPP images were reported as zero"),
 ("C13", "convert 16-BPP RGB images", "RGB5/RGB565 images converted to RGBAF with wrong values"),
 ("C13", "preserve values when converting 8-bit", "8-bit to 16-bit conversion did not preserve the maximum value"),
 ("C15", "keep the pixel format when resizing", "resizing RGB5/RGB565 images changed the pixel format"),
 ("C09", "report that A4R4G4B4 has alpha", "hasAlpha() was false for A4R4G4B4"),
 ("C20", "assign the replacement of custom", "CustomMipImage assignment did not copy the replacement"),
 ("C18", "keep the resumed mip image", "the image resumed after a custom mip leaked into other faces and layers"),
 ("C18", "convert custom mip images", "custom mip images were not converted to the texture's colour space"),
 ("C19", "only expect the available slices", "3D textures expected the base depth at every mip level"),
 ("C19", "leave 3D textures unchanged", "rejected custom mip images left a 3D texture half modified"),
 ("C19", "discard converted data when generating", "generateMipmaps() left stale converted data behind"),
 ("C21", "keep alpha when adjusting", "RGB5/RGB565 images lost alpha when the value range was adjusted"),
 ("C10", "preserve files that cannot be saved", "a refused texture save truncated the existing file and flush errors were ignored"),
 ("C06", "mark cube maps as complex", "cube maps without mips lacked the complex surface flag"),
 ("C07", "save signed R8G8 KTX", "signed R8G8 types were written as unsigned"),
 ("C07", "save B8G8R8A8 and A8B8G8R8 KTX", "the glType did not match the byte order of B8G8R8A8 and A8B8G8R8"),
 ("C07", "save integer KTX textures", "integer textures were written with a non-integer glFormat"),
 ("C11", "read image streams with the semantics", "images could not be loaded from some streams"),
 ("C10", "report failures to write images to streams", "image saves to failing streams reported success"),
 ("C01", "refuse to save images in formats", "saving 16-BPP images as PNG read past the end of the pixels"),
 ("C11", "keep image streams usable", "images could not be loaded from seekable streams after detection seeked past the end"),
 ("C10", "save images through memory", "TIFF could not be saved to a stream and a failed image save truncated the file"),
]
try:
    from fixed_more import FIXED_MORE
    FIXED += FIXED_MORE
except ImportError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for prop, subj, what in FIXED:
    m = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + subj)]
    assert len(m) == 1, (subj, m)
    out.append({"status": "fixed", "property": prop, "commit": m[0].split()[0], "what": what,
                "line": "fixed: property=%s %s %s" % (prop, m[0].split()[0], what)})
old = []
try:
    old = [json.loads(l) for l in open("/verif/known_findings.jsonl") if l.strip()]
except OSError:
    pass
with open("/verif/known_findings.jsonl", "w") as f:
    for o in out + [o for o in old if o.get("status") != "fixed"]:
        f.write(json.dumps(o) + "\n")
missing = [l for l in log if " fix:" in l and l.split()[0] not in {o["commit"] for o in out}]
print("fix commits without an entry:", missing)
