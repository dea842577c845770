"""What each check builds and runs. Case counts bound the work; nothing is decided by time."""

def tgt(name, driver, flavor="asan", **kw):
    d = {"name": name, "flavor": flavor, "kind": "lib", "drivers": [driver]}
    d.update(kw)
    return d

ENC = tgt("encode", "encode.cpp")
ENC_NOHALF = tgt("encode-nohalf", "encode.cpp", skip=["HalfFloat.cpp"], optional=True)
ENC_NOHALF["drivers"] = ["encode.cpp", "nohalf.cpp"]

IMG = tgt("image", "image.cpp")

SAVE = tgt("save", "save.cpp")

IMGIO = tgt("imageio", "imageio.cpp")

TEX = tgt("texture", "texture.cpp")

HOOK = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,glm/,/verif/"]
THR = tgt("threads-tsan", "threads.cpp", "tsan", flags=HOOK)
THR_FAST = tgt("threads", "threads.cpp", "plain", flags=HOOK)

TOOLRUN = tgt("toolrun", "tool.cpp")
TOOL = {"name": "tool", "flavor": "asan", "kind": "tool", "drivers": []}

HIST = tgt("history", "history.cpp")
HIST_FILL = tgt("history-fill", "history.cpp", "plain", flags=["-DVH_FILL", "-fno-builtin-malloc", "-fno-builtin-free"])
HIST_MEM = tgt("history-mem", "history.cpp", "plain", flags=["-DVH_MEMCHECK"])

ENCODERS = ["-DCUTTLEFISH_HAS_S3TC=1", "-DCUTTLEFISH_HAS_ETC=1", "-DCUTTLEFISH_HAS_ASTC=1", "-DCUTTLEFISH_HAS_PVRTC=1"]
COMP = tgt("compressed", "compressed.cpp", flags=ENCODERS, stubs=True, drivers=["compressed.cpp", "stubs.cpp"])
COMP_ISPC = dict(COMP, name="compressed-ispc", flags=ENCODERS + ["-UCUTTLEFISH_ISPC", "-DCUTTLEFISH_ISPC=1"])
# The tool and its reference pipeline with the recording encoders, whose blocks are digests of what they were given.
TOOL_ENC = {"name": "tool-enc", "flavor": "asan", "kind": "tool", "drivers": ["stubs.cpp"], "flags": ENCODERS, "stubs": True}
TOOLRUN_ENC = tgt("toolrun-enc", "tool.cpp", flags=ENCODERS + ["-DVH_ENC"], stubs=True, drivers=["tool.cpp", "stubs.cpp"])
CONC_ENC = dict(stubs=True, drivers=["concurrent.cpp", "stubs.cpp"], flags=HOOK + ENCODERS + ["-DVH_NORECORD"])
CONC = dict(tgt("concurrent-tsan", "concurrent.cpp", "tsan"), **CONC_ENC)
CONC_FAST = dict(tgt("concurrent", "concurrent.cpp", "plain"), **CONC_ENC)
COMP_TSAN = dict(COMP, name="compressed-tsan", flavor="tsan")

PROPS = {
    "C01": {
        "targets": [HIST],
        "runs": [{"exe": "history", "quick": 24000, "thorough": 600000, "chunk": 50}],
        "foreign_ok": True,
        "rule": "one evaluation = one call of the public API with everything it hands out read; distinct = operation x format x outcome",
    },
    "C25": {
        "targets": [HIST_FILL, HIST_MEM],
        "runs": [{"exe": "history-fill", "quick": 4000, "thorough": 200000, "chunk": 50},
                 {"exe": "history-mem", "quick": 160, "thorough": 4000, "chunk": 10,
                  "prefix": ["valgrind", "-q", "--error-exitcode=0", "--undef-value-errors=yes", "--leak-check=no"]}],
        "rule": "one evaluation = one observation (pixels, surface bytes, file bytes, results) of a history compared with the same "
                "history over other memory contents or in another process; distinct = operation x format x outcome",
    },
    "C27": {
        "targets": [CONC, CONC_FAST],
        "runs": [{"exe": "concurrent-tsan", "quick": 1500, "thorough": 40000, "chunk": 10, "parallel": 8},
                 {"exe": "concurrent", "quick": 6000, "thorough": 200000, "chunk": 25, "parallel": 8}],
        "rule": "one evaluation = one result (bytes of an image, texture or file, or a return value) that a thread got beside others "
                "compared with the result of the same work alone; distinct = way of sharing x operation, and number of threads x order "
                "of magnitude of observed switches between them",
    },
    "C26": {
        "targets": [COMP, COMP_ISPC, COMP_TSAN],
        "runs": [{"exe": "compressed", "quick": 8000, "thorough": 300000, "chunk": 50},
                 {"exe": "compressed-ispc", "quick": 4000, "thorough": 150000, "chunk": 50},
                 {"exe": "compressed-tsan", "quick": 800, "thorough": 30000, "chunk": 20}],
        "rule": "one evaluation = one call of an encoder checked for its pixels and options, one output block found in its place, or "
                "one field or surface of a saved file; distinct = format x type x quality x alpha x mask x container",
    },
    "C22": {
        "targets": [TOOL, TOOLRUN, TOOL_ENC, TOOLRUN_ENC],
        "runs": [{"exe": "toolrun", "quick": 5000, "thorough": 40000, "chunk": 20},
                 {"exe": "toolrun-enc", "quick": 1500, "thorough": 20000, "chunk": 20}],
        "rule": "one evaluation = one run of the tool: its status, the bytes of its output compared with the pipeline applied through "
                "the library, its side effects; distinct = kind x dimension x mips x status, format x type x container, sets of operations",
    },
    "C23": {
        "targets": [TOOL, TOOLRUN],
        "runs": [{"exe": "toolrun", "quick": 10000, "thorough": 100000, "chunk": 25}],
        "rule": "one evaluation = one run's status, message or effect on the directory; distinct = kind of mistake x exit status",
    },
    "C24": {
        "targets": [TOOL, TOOLRUN],
        "runs": [{"exe": "toolrun", "quick": 5000, "thorough": 40000, "chunk": 20}],
        "rule": "one evaluation = one surface of an output file compared with the input that belongs there, or one comparison of two "
                "spellings; distinct = kind x dimension x number of inputs x levels x custom mips x container",
    },
    "C02": {
        "targets": [THR, THR_FAST],
        "runs": [{"exe": "threads-tsan", "quick": 1200, "thorough": 40000, "chunk": 10, "parallel": 8},
                 {"exe": "threads", "quick": 6000, "thorough": 200000, "chunk": 25, "parallel": 8}],
        "rule": "one evaluation = one surface or conversion compared with the sequential one under one schedule; distinct = kind x "
                "number of threads x order of magnitude of observed switches between workers, and formats",
    },
    "C03": {
        "targets": [ENC],
        "runs": [{"exe": "encode", "quick": 20000, "thorough": 600000, "chunk": 100}],
        "rule": "one evaluation = one channel of one converted pixel compared with its exact rounding; distinct = "
                "format:type x sequential/parallel x full/partial last batch x narrow/wide rows, plus exhaustive code sweeps",
    },
    "C04": {
        "targets": [ENC],
        "runs": [{"exe": "encode", "quick": 20000, "thorough": 600000, "chunk": 100}],
        "rule": "as C03, for integer channel types, including saturation at the type limits",
    },
    "C05": {
        "targets": [ENC, ENC_NOHALF],
        "runs": [{"exe": "encode", "quick": 12000, "thorough": 400000, "chunk": 100},
                 {"exe": "encode-nohalf", "quick": 6000, "thorough": 200000, "chunk": 100}],
        "rule": "as C03, for floating types; both the hardware and the software half-float paths run",
    },
    "C12": {
        "targets": [IMG],
        "runs": [{"exe": "image", "quick": 100000, "thorough": 2000000, "chunk": 250}],
        "rule": "one evaluation = one check of a read, write, mask or refusal; distinct = format x colour space x row parity",
    },
    "C13": {
        "targets": [IMG],
        "runs": [{"exe": "image", "quick": 80000, "thorough": 2000000, "chunk": 250}],
        "rule": "one evaluation = one channel of one converted pixel, or one shape check; distinct = source>target x gray x space",
    },
    "C14": {
        "targets": [IMG],
        "runs": [{"exe": "image", "quick": 80000, "thorough": 2000000, "chunk": 250}],
        "rule": "one evaluation = one pixel found where the permutation puts it; distinct = format x operation x shape",
    },
    "C15": {
        "targets": [IMG],
        "runs": [{"exe": "image", "quick": 100000, "thorough": 2000000, "chunk": 250}],
        "rule": "one evaluation = one channel bound or equality; distinct = format x filter x colour space x relation",
    },
    "C16": {
        "targets": [IMG],
        "runs": [{"exe": "image", "quick": 80000, "thorough": 2000000, "chunk": 250}],
        "rule": "one evaluation = one channel of one pixel against its definition; distinct = format x operation x space",
    },
    "C17": {
        "targets": [IMG],
        "runs": [{"exe": "image", "quick": 80000, "thorough": 2000000, "chunk": 250}],
        "rule": "one evaluation = one channel of one normal; distinct = source format x options x degenerate size, and targets",
    },
    "C06": {
        "targets": [SAVE],
        "runs": [{"exe": "save", "quick": 60000, "thorough": 1000000, "chunk": 500}],
        "rule": "one evaluation = one saved DDS file described, or one surface decoded from it with the layout its header "
                "declares; distinct = format x type x colour space, and dimension x array x mips x size class x row padding",
    },
    "C07": {
        "targets": [SAVE],
        "runs": [{"exe": "save", "quick": 60000, "thorough": 1000000, "chunk": 500}],
        "rule": "one evaluation = one saved KTX 1.1 file described, or one surface decoded from it with the layout its header "
                "declares; distinct = format x type x colour space, and dimension x array x mips x size class x row padding",
    },
    "C08": {
        "targets": [SAVE],
        "runs": [{"exe": "save", "quick": 60000, "thorough": 1000000, "chunk": 500}],
        "rule": "one evaluation = one saved PVR v3 file described, or one surface decoded from it with the layout its header "
                "declares; distinct = format x type x colour space, and dimension x array x mips x size class x row padding",
    },
    "C10": {
        "targets": [SAVE],
        "runs": [{"exe": "save", "quick": 4000, "thorough": 100000, "chunk": 50}],
        "level": "fault_enumeration",
        "rule": "one evaluation = one save observed (success, refused or under one injected fault); faults are a stream refusing "
                "from each byte on, a file size limit, a full device, missing directories; distinct = format x destination",
    },
    "C11": {
        "targets": [IMGIO],
        "runs": [{"exe": "imageio", "quick": 16000, "thorough": 300000, "chunk": 100}],
        "foreign_ok": True,
        "rule": "one evaluation = one load from one source compared with the load from memory, or one byte of a round trip; "
                "distinct = file type x pixel format x colour space, palettes, truncations",
    },
    "C09": {
        "targets": [TEX],
        "runs": [{"exe": "texture", "quick": 6000, "thorough": 60000, "chunk": 50}],
        "rule": "one evaluation = one query compared with what conversion, saving or the documented table does; distinct = every "
                "format x type x colour space with its outcome, detected file types, level counts",
    },
    "C18": {
        "targets": [TEX],
        "runs": [{"exe": "texture", "quick": 40000, "thorough": 1000000, "chunk": 50}],
        "rule": "one evaluation = one channel of one pixel of one generated or custom level, or one shape check; distinct = "
                "dimension x filter x colour space x outcome, and level counts",
    },
    "C19": {
        "targets": [TEX],
        "runs": [{"exe": "texture", "quick": 24000, "thorough": 600000, "chunk": 50}],
        "rule": "one evaluation = one accessor answer compared with the model after one operation; distinct = pairs of consecutive "
                "operations with the resulting state",
    },
    "C20": {
        "targets": [TEX],
        "runs": [{"exe": "texture", "quick": 24000, "thorough": 600000, "chunk": 50}],
        "rule": "one evaluation = one observable of one of nine objects after one copy, move, assignment or mutation; distinct = "
                "class x operation x emptiness of source and target",
    },
    "C21": {
        "targets": [TEX],
        "runs": [{"exe": "texture", "quick": 200000, "thorough": 4000000, "chunk": 250}],
        "rule": "one evaluation = one adjusted channel or one unchanged image; distinct = pixel format x original format x target",
    },
}
