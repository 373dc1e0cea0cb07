"""What each check runs: harness entries with parameters, their bounds and what they must reach."""

ASSUMPTIONS = [
    "rustc/LLVM optimisation of the harness build (opt-level 1, overflow checks on) preserves the behaviour of the source",
    "the symbolic executor's model of LLVM IR and of memory (cross-checked by replaying explored paths natively)",
    "core::str::from_utf8 is modelled by the UTF-8 grammar; allocations of 4 GiB or more fail",
    "a branch or assertion z3 leaves open is decided by cvc5; what both leave open makes the check give no answer",
]

PROPS = {}
U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, BOOL, TIME, C32, C64, EXT = range(15)


def prop(pid, **kw):
    PROPS[pid] = kw


def describe(pid, job, v):
    if v["kind"] == "check":
        e = job.split(":")[0]
        c = PROPS[pid].get("codes", {}).get(e, {})
        return c.get(v["code"], "assertion %d fails" % v["code"])
    if v["kind"] == "panic":
        return "panics: " + v["loc"]
    if v["kind"] == "steps":
        return "does not terminate: " + v["loc"]
    return v["kind"] + ": " + v["loc"]


prop(
    "P01",
    quick=["h_p01:%d,%d,%d" % (t, 3, 3) for t in range(15)] + ["h_p01_large:0,0,33000", "h_p01_large:0,10,9000"],
    thorough=["h_p01:%d,%d,%d" % (t, 4, 6) for t in range(15)] + ["h_p01_large:0,0,20000", "h_p01_large:0,2,20000", "h_p01_large:0,4,20000", "h_p01_large:0,6,20000", "h_p01_large:0,8,20000", "h_p01_large:0,10,20000", "h_p01_large:0,12,20000", "h_p01_large:0,14,20000", "h_p01_large:0,0,66000"],
    covers={"h_p01_large": [1], "h_p01": [1, 2, 11, 12, 13, 21, 22, 23]},
    bounds="one write of 1-3 channels with 1-3 samples each (thorough: 4 and 6), both layouts, all 15 fixed-size value types, every bit pattern of every sample; three writes of up to 66,001 samples or 150 KB, those around 256, 8 KiB and 65,536 with any bits",
)

prop(
    "P02",
    quick=["h_p02:2,2,2,5,2", "h_p02:3,1,1,4,1"] + ["h_p02_types:%d" % t for t in range(15)] + ["h_p02_large:1,1,300", "h_p02_large:2,1,0", "h_p02_large:3,1,0", "h_p02_large:4,1,300", "h_p02_large:5,1,300", "h_p02_large:0,9,5000"],
    covers={"h_p02_large": [1]},
    bounds="histories of 2 writes (thorough: 3) over 6 channel sets in any order, 1-2 samples, 2 value types, both layouts, property writes between; one write of each of the 15 types followed by a property of each of 20 kinds and a second write; every bit pattern of samples and property values; 300 writes, 300 properties, texts and names of 127 to 70,000 bytes, 15,000 samples, a few of them any",
)
prop(
    "P03",
    quick=["h_p03:2,3,3,6,4,1", "h_p03:3,2,2,4,1,1", "h_p03:2,4,2,4,0,0", "h_p03:2,5,1,2,0,0", "h_p03:2,6,1,2,0,0"] + ["h_p03_large:1,1,300", "h_p03_names:3,1,1,1", "h_p03_names:2,2,1,2", "h_p03_names:2,1,2,1"],
    covers={"h_p03_names": [1, 2], "h_p03_large": [1], "h_p03": [1, 2, 3, 10, 11]},
    bounds="histories of up to 3 data writes over 6 channel sets, up to 2 samples per channel, value types changing between writes, within {U16,I32}, {U8,F64,U16}, {U8,I8}, {I32,U32,F32} and {U64,F64,I64}, both layouts, property writes and reads between, every bit pattern; 300 writes over the 6 channel sets; up to 3 writes to two channels whose group and channel names are any text of up to 2 bytes",
)
prop(
    "P04",
    quick=["h_p04:1,2,1,2,4,2,%d,0" % k for k in range(7)] + ["h_p04:1,2,%d,2,2,0,0,0" % (10 + t) for t in range(15)] + ["h_p04_large:0,3,3000", "h_p04_large:1,9,300", "h_p04_large:5,2,300"],
    covers={"h_p04_large": [1]},
    bounds="7 kinds of existing file (empty, little-endian, big-endian, two chunks and a segment without metadata, channel listed without data, trailing bytes, channel added later), up to 1 write before and 2 after, reopened between; every bit pattern; 300 writes of samples or properties and 9,000 samples, reopened in between",
)

prop(
    "P16",
    steps=50_000,
    quick=["h_p16_raw:5", "h_p16_tail:24", "h_p16_tail:28", "h_p16_tail:40", "h_p16_tail:36,1", "h_p16:1,1,8,0,0,0,0,2", "h_p16:1,1,1,1,0,0,1,1",
           "h_p16:2,1,1,0,0,0,0,1"] + ["h_p16_counts:" + x for x in ("1,0,0,0,2,5,0", "2,0,0,0,1,6", "1,1,1,0,2,6,10", "1,0,0,0,2,32,6", "2,0,0,4,2,6,0")],
    thorough=["h_p16_raw:7", "h_p16_tail:24", "h_p16_tail:28", "h_p16_tail:40", "h_p16_tail:36,1", "h_p16:1,1,8,0,0,0,0,2", "h_p16:1,1,1,1,0,0,1,1",
              "h_p16:2,1,2,0,0,0,0,1", "h_p16:1,1,1,0,1,1,0,1", "h_p16:1,1,1,1,0,1,0,1"] + ["h_p16_counts:" + x for x in ("1,0,0,0,2,5,0", "2,0,0,0,1,6", "1,1,1,0,2,6,10", "1,0,0,0,2,32,6", "2,0,0,4,2,6,0", "1,0,0,0,3,6,0,10")],
    covers={"h_p16": [1, 2], "h_p16_counts": [1, 2]},
    bounds="any file of up to 5 bytes; a lead-in with any fields and up to 12 any bytes behind it; up to 2 segments with any numeric field in the metadata (flags, offsets, codes, counts), paths from a list of 8 with ill-formed ones among them, or a property of any type and bytes; up to 2 channels of given types (one without a size, strings) with any numbers of values and any data length, in up to 2 segments",
)
prop(
    "P17",
    steps=250_000,
    quick=["h_p17:1,1,1,5,0,2,0,1,4", "h_p17:1,1,2,99,0,1,0,1,4", "h_p17:1,2,2,32,15,1,0,1,4", "h_p17:1,1,2,10,9,1,1,1,4", "h_p17:1,2,2,6032,15,1,0,1,4"] + ["h_p17_paths:%d,%d" % (n, k) for n in (4, 5) for k in range(6)] + ["h_p17_counts:1,1,1,4,2,6,10,1", "h_p17_counts:1,0,0,4,2,32,6,1"],
    thorough=["h_p17_counts:1,0,0,2,2,6,0,1"] + ["h_p17_paths:%d,%d" % (n, k) for n in (6, 7) for k in range(6)] + ["h_p17:1,1,1,5,0,2,0,1,8", "h_p17:1,1,2,99,0,1,0,1,8", "h_p17:1,2,2,32,15,1,0,1", "h_p17:1,1,2,10,9,2,1,1,8", "h_p17:1,2,2,3,2,1,0,1,4",
              "h_p17:2,1,2,7,6,1,0,1,4"],
    covers={"h_p17": [1, 2], "h_p17_paths": [1, 2], "h_p17_counts": [1, 2]},
    bounds="files of 1-2 segments, 1-2 channels with any flags, any type code or several fixed ones, any index length and dimension, number of values any below 16 or one of 6 up to 2^64-1, 12 any data bytes; then every query and a read with any 64-bit start and up to 2 values; an object with any 5 bytes behind one of 6 beginnings as its path; two channels with any of those numbers of values in repeated chunks",
)
prop(
    "P18",
    steps=15_000_000,
    quick=["h_p18:1,1,0", "h_p18:1,14,1", "h_p18:2,1,0", "h_p18:2,9,1", "h_p18_large:6000,1,0,0", "h_p18_large:6000,1,1,1", "h_p18_large:1300,14,0,1"],
    thorough=["h_p18:1,14,0", "h_p18:1,14,1", "h_p18:2,14,0", "h_p18:2,9,1", "h_p18:3,1,0", "h_p18:3,0,1"] + ["h_p18_large:6000,1,%d,%d" % (i, b) for i in (0, 1) for b in (0, 1)] + ["h_p18_large:9000,9,1,0", "h_p18_large:9000,14,0,1"],
    covers={"h_p18_large": [1], "h_p18": [1, 2, 3, 4]},
    bounds="1-2 segments (thorough: 3) of 6 shapes (both layouts, properties, without metadata in two chunks, added counts), types U16, F64 and EXT, both byte orders, cut at every byte, every range read, appending afterwards; every bit pattern; segments of 24 KB cut at 13 places around the limits of buffers and channels",
)
prop(
    "P19",
    quick=["h_p19:0,1", "h_p19:1,0", "h_p19:1,1", "h_p19_writer:2"],
    thorough=["h_p19:0,2", "h_p19:1,1", "h_p19:2,0", "h_p19_writer:2", "h_p19_writer:3"],
    covers={"h_p19": list(range(1, 11)), "h_p19_writer": [1]},
    bounds="up to 1 step before and after one of 10 refused requests, and 2 steps with refused requests by the same writer; compared with a second file that never saw them",
)
prop(
    "P20",
    quick=["h_p20:4,4", "h_p20:5,1", "h_p20_two:2,2,2,2", "h_p20_two:4,1,2,2"] + ["h_p20_parse:%d,0" % n for n in range(0, 11)] + ["h_p20_parse:8,1", "h_p20_parse:8,2"] + ["h_p20_large:255,256", "h_p20_large:40,70000"],
    thorough=["h_p20:5,5", "h_p20:8,2", "h_p20_two:3,3,3,3", "h_p20_two:5,2,2,2"] + ["h_p20_parse:%d,0" % n for n in range(0, 17)] + ["h_p20_parse:16,1", "h_p20_parse:16,2"] + ["h_p20_large:8191,8193", "h_p20_large:65536,65535"],
    covers={"h_p20_large": [1], "h_p20": [1], "h_p20_two": [1], "h_p20_parse": [1, 2, 3, 4]},
    bounds="every group and channel name of up to 4 bytes (5 alone), every two pairs of names of up to 2 bytes each, every text of up to 10 bytes as a path, and behind a prefix of 2 or 7 bytes every 8 bytes; names of 255, 256 and 70,000 bytes, three of them any",
)
prop(
    "P21",
    quick=["h_p21:2,1,1", "h_p21:2,2,1", "h_p21:3,1,0", "h_p21:2,1,1,1", "h_p21_foreign:2,0,12", "h_p21_foreign:3,1,12"] + ["h_p21_large:300,7", "h_p21_large:600,300"],
    thorough=["h_p21:2,2,2", "h_p21:2,3,1", "h_p21:3,1,1", "h_p21_foreign:3,0,12", "h_p21_foreign:4,1,12"] + ["h_p21_large:2000,300"],
    covers={"h_p21_large": [1], "h_p21": [1, 2, 3], "h_p21_foreign": [1, 2, 3]},
    bounds="2 objects with every group name of up to 2 bytes and channel name of 1 byte, 3 objects with 1 byte, written with or without properties; files of other writers with up to 3 of 12 names with doubled quotes and common prefixes; 600 channels in 300 groups",
)
prop(
    "P22",
    quick=["h_p22_read:1,0,0", "h_p22_read:1,0,1", "h_p22_read:0,1,0", "h_p22_read:0,1,1", "h_p22_read:10,10,0", "h_p22_read:10,10,1", "h_p22_write:1",
           "h_p22_write:10", "h_p22_big:2100", "h_p22_text:20000,3,1", "h_p22_text:8200,8193,1", "h_p22_text:3,1,17000"],
    thorough=["h_p22_read:2,0,0", "h_p22_read:2,0,1", "h_p22_read:0,2,0", "h_p22_read:0,2,1", "h_p22_read:10,10,0", "h_p22_read:10,10,1", "h_p22_write:2",
              "h_p22_write:10", "h_p22_big:2100", "h_p22_big:4200"] + ["h_p22_text:%d,%d,%d" % t for t in ((20000, 3, 1), (8200, 8193, 1), (3, 1, 17000), (70000, 1, 1), (8191, 8191, 8191), (16385, 0, 8192))],
    covers={"h_p22_read": [1, 2, 3, 4], "h_p22_write": [1, 2], "h_p22_big": [1], "h_p22_text": [1]},
    bounds="any one transfer of any of the calls split at any byte or interrupted (thorough: any two), or every transfer at most 1-9 bytes with every second one interrupted, over two segments in both byte orders; samples, texts and names of more than the buffers hold with pieces of four sizes, three characters of each text any",
)
prop(
    "P23",
    quick=["h_p23_open:24,0", "h_p23_open:30,1", "h_p23_read:8,0", "h_p23_read:8,1", "h_p23_write:12,0", "h_p23_write:20,2100"],
    thorough=["h_p23_open:80,0", "h_p23_open:80,1", "h_p23_read:24,0", "h_p23_read:24,1", "h_p23_write:40,0", "h_p23_write:40,2100", "h_p23_write:40,4200"],
    covers={"h_p23_open": [1, 2], "h_p23_read": [3, 4], "h_p23_write": [5, 6]},
    bounds="any one operation on the stream failing, alone or with all after it, with 5 kinds of error (writing: every kind) or taking no bytes, while opening (30 operations), reading (8 operations, each range and two channels) or writing (20 operations, below and above the buffer size, sync in every place)",
)
prop(
    "P24",
    quick=["h_p24_create:1,1", "h_p24_create:2,1", "h_p24_load:1", "h_p24_load:2"],
    thorough=["h_p24_create:2,2", "h_p24_create:3,1", "h_p24_load:3"],
    covers={"h_p24_create": [1], "h_p24_load": [2, 3, 4]},
    bounds="before: nothing, an empty file, a TDMS file, one with trailing bytes, any 5 bytes; create or load, up to 2 steps, load and append again; compared with the same in memory",
)
NOT_APPLICABLE = {}

prop(
    "P05",
    quick=["h_p05:2,2,2,%d,%d,1" % (U16, U8), "h_p05:3,1,2,%d,%d,0" % (U8, F64)] + ["h_p05:1,2,2,%d,%d,1" % (t, I32) for t in range(15)] + ["h_p05:2,2,2,%d,%d,1,1" % (U16, U16), "h_p05:3,1,1,%d,%d,1,1" % (F64, F64)] + ["h_p05_written:2,1,2,5"] + ["h_p05_large:0,0,33000", "h_p05_large:0,9,9000"],
    thorough=["h_p05:2,2,2,%d,%d,1,2" % (U16, U16), "h_p05:3,1,1,%d,%d,1,2" % (F64, F64), "h_p05:2,3,2,%d,%d,0,1" % (U8, U8), "h_p05:3,1,2,%d,%d,0" % (U8, F64)] + ["h_p05:2,2,2,%d,%d,1" % (t, I32) for t in range(15)] + ["h_p05_written:3,1,1,4", "h_p05_large:0,0,33000", "h_p05_large:0,9,9000"],
    covers={"h_p05_large": [1], "h_p05": [1, 2, 3, 4], "h_p05_written": [1]},
    bounds="up to 3 segments of up to 2 samples and 2 chunks, all 15 types, both layouts, any 64-bit start, every output length up to one more than there is; 66,001 samples in three writes read from 19 starts around the limits of one and two bytes and of the buffer",
)
prop(
    "P06",
    quick=["h_p06:2,2,1,2,2,3,1", "h_p06:2,1,2,2,2,3,1", "h_p06:1,2,2,3,3,2,1", "h_p06:2,1,1,3,2,3,0", "h_p06:1,2,2,2,2,3,1,%d" % U16, "h_p06_outputs:2,3,3", "h_p06_outputs:3,2,3"] + ["h_p06_large:0,9,2500"],
    thorough=["h_p06:2,2,2,2,2,3,1", "h_p06:2,1,1,3,3,2,0", "h_p06:3,1,1,2,2,3,1", "h_p06:2,2,1,2,2,3,1,%d" % F64] + ["h_p06_large:0,0,33000"],
    covers={"h_p06_large": [1], "h_p06_outputs": [1, 2], "h_p06": [1, 2, 3]},
    bounds="1-3 segments, up to 2 samples, 2-3 channels, up to 3 requests in any order with repetition, output lengths 0-3, any 64-bit start; 5,001 samples in three writes read together from 10 starts",
)
prop(
    "P08",
    quick=["h_p08:1,3,3,%d,0,0,0" % U16, "h_p08:2,2,3,%d,%d,0,0" % (U16, U16), "h_p08:2,2,2,%d,%d,0,1" % (U8, I32), "h_p08:2,2,2,%d,%d,0,1" % (U16, U16), "h_p08:3,2,2,%d,%d,%d,0" % (U8, F64, I16)] + ["h_p08_large:300,1,1,0", "h_p08_large:300,2,9,1", "h_p08_large:66000,1,0,0"],
    covers={"h_p08_large": [1], "h_p08": [1, 2, 3, 4]},
    bounds="1-3 channels of up to 3 samples, up to 3 chunks, a trailing part of any size, both layouts and byte orders, any start; 300 and 66,000 chunks with a few any values",
)

prop(
    "P07",
    quick=["h_p07:%d,%d,%d,%d,%d,%d,2,%d" % x for x in [
        (0, 0, 0, U64, U8, 0, 0), (1, 0, 0, U64, U16, 0, 0), (0, 11, 10, I32, F64, 0, 0), (0, 3, 4, U64, U16, 1, 19),
        (0, 12, 12, U8, U8, 0, 0), (1, 7, 7, F64, U8, 1, 0)]] + ["h_p07_text:1,0,7,0,0,2,0"],
    covers={"h_p07": [1, 2, 3], "h_p07_text": [1, 2, 3]},
    bounds="one data segment whose position, metadata length, data length and start are any 64-bit values and whose counts are any of a list up to 2^60, six type and layout combinations; a channel of strings, with any total size, beside a channel of numbers",
)
prop(
    "P09",
    quick=["h_p09:2,2,%d,%d" % (t, (t + 7) % 15) for t in range(15)] + ["h_p09_incremental:%d,4" % t for t in (U16, F64, TIME, C64, EXT)] + ["h_p09_large:300,2,9,1,1", "h_p09_large:2,4500,9,0,1", "h_p09_large:2,3000,9,1,1", "h_p09_large:2,3000,11,0,1", "h_p09_objects_large:300,300,1,0", "h_p09_objects_large:300,70000,1,1"],
    thorough=["h_p09:3,1,%d,%d" % (t, (t + 7) % 15) for t in range(15)] + ["h_p09:2,3,%d,%d" % (t, (t + 4) % 15) for t in range(15)] + ["h_p09_incremental:%d,5" % t for t in range(15)] + ["h_p09_large:300,2,9,1,1", "h_p09_large:2,4500,9,0,1", "h_p09_large:2,3000,9,1,1"] + ["h_p09_objects_large:1000,70000,1,%d" % i for i in (0, 1)],
    covers={"h_p09": [1], "h_p09_incremental": [1], "h_p09_large": [1], "h_p09_objects_large": [1]},
    bounds="two segments of up to 2 samples in every mix of byte orders, all 15 types, both layouts, a property in each; four segments with incremental metadata for 5 types; every bit pattern; big-endian segments of 9,000 samples, 300 channels and texts of up to 70,000 bytes",
)
prop(
    "P10",
    quick=["h_p10:2,1,2,2,1,1,0", "h_p10:1,2,3,2,2,0,0", "h_p10:3,1,2,1,1,0,0", "h_p10:1,2,4,3,1,1,1", "h_p10:2,1,3,2,1,0,1", "h_p10:2,1,2,2,1,0,0,1", "h_p10:3,1,2,1,1,0,0,1", "h_p10_large:300,5,0,0", "h_p10_large:300,5,0,1"],
    thorough=["h_p10:2,1,4,5,2,1,1", "h_p10:1,3,3,3,2,0,0", "h_p10:3,1,2,2,1,0,0", "h_p10:2,2,2,2,1,0,0"],
    covers={"h_p10": [1, 2, 3], "h_p10_large": [1]},
    bounds="a first segment and up to 3 more, up to 3 entries each, up to 4 objects, each new, full (also with no values), same-as-before or without data, a new list with or without metadata, up to 2 chunks, both layouts; 300 channels, a few of them named again",
)
prop(
    "P11",
    quick=["h_p11:%d" % t for t in range(15)] + ["h_p11_string:5"] + ["h_p11_string_large:%d" % n for n in (127, 128, 255, 256, 257, 8192, 65535, 65536, 70000)],
    covers={"h_p11_string_large": [1], "h_p11": [1], "h_p11_string": [1, 2]},
    bounds="every bit pattern of all 15 fixed-size types and every text of up to 5 bytes, both byte orders; texts of 127 to 70,000 bytes, three of them any",
)
prop(
    "P12",
    quick=["h_p12:3,2,2,%d,%d,2,0" % (I32, 18), "h_p12:3,6,1,%d,%d,0,0" % (F64, BOOL), "h_p12:2,3,2,%d,%d,2,1" % (TIME, 15), "h_p12_multi:2,2", "h_p12_names:2,2"]
    + ["h_p12_kinds:%d" % k for k in range(19)] + ["h_p12_large:2,1,0", "h_p12_large:3,12,0", "h_p12_large:4,9,300", "h_p12_large:5,13,300"],
    thorough=["h_p12:4,2,2,%d,%d,2,0" % (I32, 18), "h_p12:3,6,2,%d,%d,2,1" % (F64, 17), "h_p12_multi:3,2", "h_p12_names:3,3"] + ["h_p12_kinds:%d" % k for k in range(19)] + ["h_p12_large:2,1,0", "h_p12_large:3,14,0", "h_p12_large:4,9,1000", "h_p12_large:5,13,1000"],
    covers={"h_p12_large": [1], "h_p12": [1, 2], "h_p12_kinds": [1], "h_p12_multi": [1], "h_p12_names": [1, 2]},
    bounds="up to 3 property writes on up to 6 objects, 20 kinds of value, texts of up to 2 bytes, names of up to 2 arbitrary bytes, several properties per write, every value; texts and names of 127 to 70,000 bytes, 300 properties at once and 300 writes of one",
)
prop(
    "P13",
    quick=["h_p13:3"],
    thorough=["h_p13:8"],
    covers={"h_p13": [1, 2, 3]},
    bounds="every value of every native type, texts of up to 3 bytes, against every stored kind",
)
prop(
    "P14",
    quick=["h_p14:2,2,2,6,4,0", "h_p14:3,1,1,4,2,0", "h_p14:2,1,1,5,2,1", "h_p14_props", "h_p14_big:1100,%d" % F64] + ["h_p14_types:%d" % t for t in range(15)] + ["h_p14_large:0,9,9000", "h_p14_large:1,1,300", "h_p14_large:5,3,300"],
    thorough=["h_p14:3,2,2,6,4,0", "h_p14:4,1,1,4,2,0", "h_p14:3,2,1,5,2,1", "h_p14_props", "h_p14_big:3000,%d" % F64] + ["h_p14_types:%d" % t for t in range(15)] + ["h_p14_large:0,0,33000", "h_p14_large:1,1,1000", "h_p14_large:5,3,1000"],
    covers={"h_p14_large": [1], "h_p14": [1, 2, 3], "h_p14_types": [1], "h_p14_props": [1], "h_p14_big": [1]},
    bounds="histories of up to 3 writes over 6 channel sets and 3-4 objects, all 15 types, properties, a write above the buffer size; every bit pattern; 18,001 samples and 300 writes",
)
prop(
    "P15",
    quick=["h_p15:%d" % s for s in range(21)] + ["h_p15_change:%d,2" % t for t in range(15)] + ["h_p15_multi:2"],
    thorough=["h_p15:%d" % s for s in range(21)] + ["h_p15_change:%d,3" % t for t in range(15)] + ["h_p15_multi:3"],
    covers={"h_p15": [1, 2], "h_p15_change": [1], "h_p15_multi": [1, 2]},
    bounds="21 stored forms read as each of the 15 types; two segments with a change of type; several channels of different types; every bit pattern",
)

DAYS = range(16)
BEYOND = range(16, 20)
prop(
    "P25",
    quick=["h_p25_other", "h_p25_to_calendar:97"] + ["h_p25_%s:%s" % (k, d) for k in ("to_calendar", "from_calendar") for d in DAYS] + ["h_p25_to_calendar:%d" % d for d in BEYOND] + ["h_p25_round:%d,%d" % (d, k) for d in DAYS for k in (0, 1)],
    thorough=["h_p25_other", "h_p25_to_calendar:97", "h_p25_to_calendar:98"] + ["h_p25_%s:%s" % (k, d) for k in ("to_calendar", "from_calendar") for d in DAYS] + ["h_p25_to_calendar:%d" % d for d in BEYOND] + ["h_p25_round:%d,%d" % (d, k) for d in DAYS for k in (0, 1)],
    covers={"h_p25_other": [6], "h_p25_to_calendar": [1, 2], "h_p25_from_calendar": [4], "h_p25_round": [5]},
    bounds="every second of 16 days (the borders of the calendar, of its leap year rules and of both epochs) with every nanosecond and every fraction, every second of the days around its ends and of all whose number exceeds 32 bits (thorough: every second and fraction at all to calendar time); there and back with every second and 5 fractions, and 3 seconds with every nanosecond",
)
