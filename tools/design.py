"""Rewrites the generated parts of DESIGN.md: the property sections and the table of planted bugs."""
import sys
HERE = __file__.rsplit('/tools/', 1)[0]
sys.path.insert(0, HERE)
import jobs as J, json, os, glob
props=[json.loads(l) for l in open(HERE + '/properties.jsonl')]
how={
"P01":("h_p01","writes one block of symbolic samples through `TdmsFile::writer` into a memory stream and reads it back through the same handle; each sample must be the identical term"),
"P02":("h_p02, h_p02_types","runs a history of writes, then opens a second handle on the bytes and compares every list, length, property and sample of the two handles and of a model kept by the harness"),
"P03":("h_p03, h_p03_large, h_p03_names","runs a history of writes of changing shape against a model that only concatenates per channel"),
"P04":("h_p04","opens bytes laid out by the harness's own encoder (seven kinds of file), writes, opens again, writes, and compares with the model each time"),
"P05":("h_p05, h_p05_written","opens encoded files and reads with a symbolic 64-bit start into every output length; untouched elements must keep their fill"),
"P06":("h_p06","reads several channels at once with a symbolic start and compares with one-by-one reads"),
"P07":("h_p07","opens a sparse stream (a stream model that answers reads from a symbolic map of positions) whose lead-in fields, segment position and start sample are free 64-bit values, and requires that the bytes fetched are those at the position computed in 128-bit arithmetic, or that an error is returned when it cannot be expressed"),
"P08":("h_p08","opens segments of repeated chunks with a trailing part and compares with the samples in repetition order"),
"P09":("h_p09, h_p09_incremental","encodes the same content with every mix of byte orders and compares what is read with the model"),
"P10":("h_p10","lays out incremental segments from a symbolic choice per entry, runs them through `refint.rs`, an independent interpreter of the published rules, and compares lengths and samples"),
"P11":("h_p11, h_p11_string","encodes every value as a sample in both byte orders with the harness's encoder and reads it, writes it and compares the bytes"),
"P12":("h_p12, h_p12_kinds, h_p12_multi, h_p12_names","property writes to several objects against a map, before and after reopening; names and texts are symbolic bytes"),
"P13":("h_p13","every stored kind against every native type with a symbolic value"),
"P14":("h_p14, h_p14_types, h_p14_props, h_p14_big","parses the bytes written with `parse.rs`, an independent TDMS parser which also verifies flags and offsets"),
"P15":("h_p15, h_p15_change, h_p15_multi","21 stored forms against 15 types to read into; refusal must come with an error and unchanged outputs"),
"P16":("h_p16_raw, h_p16_tail, h_p16","opens symbolic bytes; every panic, overflow, out-of-bounds access and oversized allocation in the library is a violation, and so is a path beyond the step limit"),
"P17":("h_p17","opens files whose header fields are symbolic and calls every query and reads; the same violations"),
"P18":("h_p18","cuts a file with symbolic samples at every byte and compares what opens with what lies before the cut"),
"P19":("h_p19, h_p19_writer","runs the same steps on two files, one of which also receives refused requests, and compares bytes and everything observable"),
"P20":("h_p20, h_p20_two, h_p20_parse","names and path texts of symbolic bytes; a model of quoting says what is well-formed"),
"P21":("h_p21, h_p21_foreign","symbolic names, listing compared with the set that was written"),
"P22":("h_p22_read, h_p22_write, h_p22_big, h_p22_text","a stream that splits or interrupts the transfer a symbolic choice picks; compared with full transfers"),
"P23":("h_p23_open, h_p23_read, h_p23_write","a stream whose n-th operation fails (n, the kind of error and whether it lasts are symbolic); the call or the following sync must report it and a retry must return the right data"),
"P24":("h_p24_create, h_p24_load","the same by path; the file system calls the library makes (open, read, write, lseek, ...) are modelled by the engine, with a file whose content is symbolic"),
"P25":("h_p25_to_calendar, h_p25_from_calendar, h_p25_round, h_p25_other","converts symbolic seconds and fractions; compared in 128-bit integer arithmetic"),
}
why={
"P01":"tests use a few literals per type","P02":"tests reopen a few fixed files","P03":"the defect needs the right pair of shapes in a row","P04":"tests append to one kind of file","P05":"starts relative to block borders multiply with layouts","P06":"orders, repetitions and lengths multiply","P07":"no test can hold a file of 2^60 bytes","P08":"counts, widths and layouts multiply","P09":"tests hold one big-endian file","P10":"the sequences are combinatorial and no client writes most of them","P11":"2^128 bit patterns","P12":"last-write-wins and separation are statements about all histories","P13":"all values, all pairs of types","P14":"tests read with the code that wrote","P15":"most pairs never occur in tests","P16":"all byte strings","P17":"all header fields","P18":"every cut of every file","P19":"needs the refused request between others","P20":"all names","P21":"all sets of names","P22":"memory streams in tests never split a transfer","P23":"memory streams in tests never fail","P24":"prior content multiplies with the histories","P25":"the test rounds to full seconds"}
out=[]
for p in props:
    i=p['id']; s=J.PROPS[i]
    out.append("### %s %s\n\nEntries `%s`: %s. Bounds: %s. Beyond tests: %s.%s\n"%(i,p['title'],how[i][0],how[i][1],s.get('bounds',''),why[i]," Thorough: larger parameters (`jobs.py`)." if s.get('thorough') else ""))

caught = {}
f = HERE + "/tools/caught.json"
if os.path.exists(f):
    caught = json.load(open(f))
rows = ["| planted bug | property | needs | checks |", "|---|---|---|---|"]
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    c = caught.get(n, {})
    t = ", ".join("%s: %s" % (k, v) for k, v in sorted(c.items())) or "not measured"
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], t))
known = json.load(open(HERE + "/known_findings.json"))
fx = "\n".join("- " + x for x in known["fixed"]) + "\n"
t = open(HERE + "/DESIGN.md").read()
for name, body in (("properties", "\n".join(out)), ("planted", "\n".join(rows) + "\n"), ("fixed", fx)):
    a, b = "<!-- %s -->\n" % name, "<!-- end of %s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + body + t[j:]
open(HERE + "/DESIGN.md", "w").write(t)
