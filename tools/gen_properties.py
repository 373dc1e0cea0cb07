#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Data written to channels reads back bit-for-bit in the same session",
 "Every value written to a channel is returned bit-for-bit and in order when the channel is read back through the same open file. This holds for every fixed-size value type (integers, floats, booleans, timestamps, complex and extended numbers), any bit pattern, any number of channels and values per channel in the write, and both the interleaved and the contiguous layout. The reported channel length equals the number of samples written.",
 ["inputs","configurations"],"all bit patterns of the values x value type x number of channels x values per channel x layout",
 "Unit tests write one or two hand-picked float/int arrays; they never vary type, channel count, layout and bit pattern together (timestamps and extended floats as channel data are not covered at all).",
 ["src/file/file_writer.rs","src/raw_data/write.rs","src/raw_data/mod.rs","src/raw_data/records.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/io/data_types/mod.rs"],
 [("segment writer","src/io/writer.rs write_segment"),("multi-channel slice splitting","src/raw_data/write.rs MultiChannelSlice"),("element sizes","src/io/data_types/mod.rs DataType::size / SIZE_BYTES")],
 ["TdmsFileWriter::write_channels","TdmsFile::read_channel","TdmsFile::channel_length"])

p("P02","Reopening a written file shows exactly what the writing handle shows",
 "Opening the bytes produced by any sequence of successful data and property writes succeeds and yields the same groups, channels, channel lengths, property names, property values and sample values as the handle that wrote them.",
 ["histories","inputs"],"all sequences (within the bound) of data writes and property writes over a few channels, with arbitrary values",
 "The two views come from different code (index kept while writing vs. index rebuilt from bytes); tests reopen a file only after one or two fixed writes, so sequences in which the writer omits or abbreviates metadata are never reopened.",
 ["src/file/mod.rs","src/file/file_writer.rs","src/index/building.rs","src/index/writing.rs","src/io/reader.rs","src/io/writer.rs","src/meta_data.rs"],
 [("metadata elision on write","src/index/writing.rs check_write_values"),("metadata-less segment reading","src/io/reader.rs read_segment"),("index building","src/index/building.rs add_segment")],
 ["TdmsFile::new on the written bytes","TdmsFile::list_groups","TdmsFile::list_channels_in_group","TdmsFile::read_all_properties"],
 [("active objects","channels expected in the next raw data","src/index/mod.rs Index.active_objects"),("latest data format","format reused by match-previous","src/index/mod.rs ObjectData.latest_data_format")])

p("P03","Successive writes concatenate per channel, however their shape changes",
 "After any sequence of successful data writes - in which the set, order, sample count and value type of the channels and the layout may change from one write to the next, with property writes and reads in between - each channel's length is the sum of the samples written to it and reading it returns those samples concatenated in write order. A write to some channels never changes what is read from the others.",
 ["histories","inputs"],"all write histories up to the bound over channel subsets and orders, counts, types, layouts, interleaved property writes and reads; symbolic values",
 "Whether a write reuses, abbreviates or resends metadata depends on the whole preceding history; the tests exercise single transitions on an index in isolation and never read the data back after a change of shape.",
 ["src/file/file_writer.rs","src/index/writing.rs","src/index/building.rs","src/file/channel_reader.rs","src/raw_data/mod.rs"],
 [("live channel matching","src/index/writing.rs check_write_values"),("object activation","src/index/building.rs update_or_activate_data_object"),("read plan","src/file/channel_reader.rs read_plan")],
 ["TdmsFileWriter::write_channels","TdmsFile::read_channel","TdmsFile::channel_length"],
 [("active objects","channels expected in the next raw data","src/index/mod.rs Index.active_objects")])

p("P04","Writing to a reopened file keeps old content and appends the new",
 "Writing to a file that has been opened from existing bytes leaves every sample, property and object that was readable before unchanged and adds the new samples after them. The same holds when the file is then opened again, for any sequence of writes before and after reopening.",
 ["histories","inputs"],"all pairs of write histories before and after a reopen (within the bound), arbitrary values",
 "It needs state rebuilt from the file to be good enough to continue writing; no test writes after reopening.",
 ["src/file/mod.rs","src/index/building.rs","src/index/writing.rs","src/file/file_writer.rs"],
 [("positioning of the writer","src/file/mod.rs TdmsFile::writer"),("rebuilt active object list","src/index/building.rs add_segment")],
 ["TdmsFile::new followed by TdmsFile::writer","TdmsFile::read_channel"])

p("P05","Reading from a start sample returns exactly the suffix from that sample",
 "Reading a channel from a start position fills the output with exactly the channel's samples from that position on, in order, for every start (zero, inside a block, on a block boundary, at or past the end) and every output length. Output elements for which the channel has no sample are left untouched and the call succeeds.",
 ["inputs","histories","configurations"],"all 64-bit start values x output lengths x distributions of the channel over segments and chunks x layouts",
 "Existing tests pick a handful of offsets on one two-block file; the skip arithmetic spans blocks, chunks, layouts and channels with different lengths.",
 ["src/file/channel_reader.rs","src/raw_data/mod.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/raw_data/records.rs"],
 [("skip planning","src/file/channel_reader.rs read_plan"),("skipping inside a block","src/raw_data/*_multi_channel_read.rs")],
 ["TdmsFile::read_channel_from"])

p("P06","Reading several channels at once equals reading each of them alone",
 "Reading several channels in one call gives every output exactly what reading that channel alone with the same start and output length would give. This holds for any order of the channels, a channel requested more than once, different output lengths (including empty ones), any common start and however the channels' samples are distributed over the file.",
 ["inputs","histories","configurations"],"all channel selections and orders x output lengths x starts x distributions over segments of either layout",
 "Only aligned channels of equal length in file order are tested; the block readers share one progress counter and one skip list, so unequal combinations take untested paths.",
 ["src/file/channel_reader.rs","src/raw_data/mod.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/raw_data/records.rs"],
 [("per channel progress","src/file/channel_reader.rs execute_read_plan"),("per channel skips","src/raw_data/mod.rs read_with_per_channel_skip")],
 ["TdmsFile::read_channels","TdmsFile::read_channels_from"])

p("P07","Samples are fetched from the byte position the format assigns, up to 64 bits",
 "In a well-formed file the sample returned for a channel and index is the one stored at the byte position the TDMS layout assigns to it. This holds for every combination of segment offsets, sample counts and start positions that the 64-bit fields can express, including files far larger than memory, and positions that cannot be expressed are reported as errors rather than wrapped.",
 ["inputs","configurations"],"full-width symbolic segment lengths, raw data offsets, sample counts and start positions over a position-coded source",
 "Tests use files of a few hundred bytes; offsets beyond 2^31 or 2^32 bytes are never reached.",
 ["src/raw_data/mod.rs","src/index/building.rs","src/file/channel_reader.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/meta_data.rs"],
 [("block start and length","src/raw_data/mod.rs DataBlock::from_segment"),("segment chaining","src/index/building.rs add_segment"),("seek arithmetic","src/raw_data/*_multi_channel_read.rs")],
 ["TdmsFile::new and TdmsFile::read_channel_from over a sparse source"])

p("P08","Segments holding repeated chunks expose every complete repetition in order",
 "When the raw data of a segment is a whole number of repetitions of its chunk, each channel's length counts every repetition and its samples are returned in repetition order, in both layouts, for every mix of value widths and sample counts and from any start. A trailing partial chunk never disturbs the samples of the complete chunks or of later segments.",
 ["inputs","configurations"],"number of chunks x per-channel sample counts and widths x layout x start, symbolic data",
 "Tests cover equal channels with one width; chunk arithmetic for unequal counts, widths and partial chunks is sampled at best.",
 ["src/raw_data/mod.rs","src/index/building.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs"],
 [("chunk counting","src/raw_data/mod.rs number_of_chunks"),("sub-block iteration","src/raw_data/contigious_multi_channel_read.rs")],
 ["TdmsFile::channel_length","TdmsFile::read_channel_from"])

p("P09","Byte order of a segment never changes the content that is read",
 "A segment stored big-endian and the same segment stored little-endian, alone or mixed within one file, produce the same objects, lengths, properties and sample values, for every value type and both layouts.",
 ["inputs","configurations"],"all values, header fields, types and layouts; every assignment of byte orders to segments",
 "No test reads a complete big-endian file, and none mixes byte orders.",
 ["src/io/reader.rs","src/io/data_types","src/meta_data.rs","src/raw_data/mod.rs"],
 [("reader selection","src/meta_data.rs Segment::read, src/raw_data/mod.rs"),("codec","src/io/data_types/*")],
 ["TdmsFile::new","TdmsFile::read_channel","TdmsFile::read_property"])

p("P10","Incremental segment metadata decides which channels own the raw data",
 "When reading a file, the channels owning a segment's raw data are those of the preceding segment, discarded when the segment starts a new object list, then extended and updated in order by the segment's own metadata: a full description replaces a channel's layout, a same-as-before entry keeps its last layout, an entry without data adds none, and a segment without metadata reuses everything. Properties accumulate independently of all this, and lengths and samples follow for every such sequence of segments.",
 ["histories","inputs","configurations"],"all sequences of segments (within the bound) of new-list flag, metadata presence and per-object entry kind, with symbolic data",
 "Index unit tests check selected two-segment transitions; combinations over several segments, and segments without metadata, are not read from bytes at all.",
 ["src/index/building.rs","src/index/mod.rs","src/io/reader.rs","src/meta_data.rs"],
 [("activation rules","src/index/building.rs"),("format inheritance","src/index/mod.rs ObjectData::update")],
 ["TdmsFile::new on constructed bytes","TdmsFile::channel_length","TdmsFile::read_channel"],
 [("active objects","ordered channels owning raw data","src/index/building.rs ActiveObject")])

p("P11","Every value survives encoding and decoding in either byte order",
 "For every supported value type and every bit pattern, decoding what was encoded in the same byte order returns the identical value, the big-endian form is the byte-wise reversal of the little-endian form of each scalar component, and the size a value reports equals the number of bytes its encoding writes and its decoding consumes. Strings of any content keep their bytes.",
 ["inputs"],"all bit patterns of each scalar type; all short strings",
 "Tests use one literal per type.",
 ["src/io/data_types"],
 [("numeric codec","src/io/data_types/native_numerics.rs"),("other codecs","src/io/data_types/{bool,complex,extended,strings,timestamp}.rs")],
 ["TdmsStorageType::read_le/read_be/write_le/write_be/size"])

p("P12","Properties round-trip, the last write wins, and objects stay separate",
 "After any sequence of property writes a property reads back as the last value written to that name on that object, for every property type and value, both in the writing session and after reopening. Properties of one object (file, group or channel) never appear on or alter another, properties not written read as absent, an object never written is reported missing, and data writes never change properties.",
 ["histories","inputs"],"all short sequences of property writes over objects, names, types and values, mixed with data writes",
 "Tests write one property of a few types with fixed values and never overwrite with another type or mix with data writes.",
 ["src/properties.rs","src/index/mod.rs","src/file/file_writer.rs","src/meta_data.rs"],
 [("property merge","src/index/mod.rs ObjectData::update"),("property codec","src/properties.rs")],
 ["TdmsFileWriter::write_properties","TdmsFile::read_property","TdmsFile::read_all_properties"])

p("P13","Typed property conversion succeeds exactly for the stored type",
 "Converting a native value into a property value and back returns the identical value, and the property reports the matching data type. Converting a property value to a native type that does not match the stored type is an error, never a reinterpreted value.",
 ["inputs"],"all pairs of stored type and requested type, all values",
 "Tests convert a few literals to their own type.",
 ["src/properties.rs"],
 [("conversion impls","src/properties.rs impl_conversion_for_property_value")],
 ["PropertyValue::from","TryFrom<PropertyValue>","PropertyValue::datatype"])

p("P14","Written bytes form well-formed TDMS segments with exact offsets and codes",
 "The bytes produced by any sequence of successful writes are a chain of TDMS 2.0 segments: tag, table-of-contents flags that match what the segment contains, version 4713, a next-segment offset that lands exactly on the next segment or end of file, and a raw-data offset equal to the encoded metadata length. Type codes, index lengths, string encodings and sample data follow the published TDMS format, so an independent TDMS parser recovers exactly what was written.",
 ["histories","inputs"],"all short histories of writes, decoded by an independent reference parser with symbolic values",
 "Round-trip tests through this library cannot notice an error made symmetrically by writer and reader; offsets are only checked for one fixed segment.",
 ["src/io/writer.rs","src/meta_data.rs","src/io/data_types/mod.rs","src/properties.rs"],
 [("size computation","TdmsMetaData::size, WriteBlock::size"),("ToC flags","src/meta_data.rs ToC::as_bytes")],
 ["bytes in the sink after drop/sync of the writer"])

p("P15","Reading with an unsuitable value type is refused, never reinterpreted",
 "Reading a channel into a value type that cannot represent the stored type fails with an error and no sample is reinterpreted. Reading with any type documented as able to hold the stored one returns the stored values; changing the type of a channel part-way never corrupts what other channels or the matching part return.",
 ["inputs","configurations","histories"],"all pairs of stored type code and requested type, single and multi channel reads",
 "Tests check one mismatch at record-plan level.",
 ["src/raw_data/records.rs","src/io/data_types"],
 [("type validation","src/raw_data/records.rs validate_types_match"),("supported types","TdmsStorageType::SUPPORTED_TYPES")],
 ["TdmsFile::read_channel","TdmsFile::read_channels"])

p("P16","Opening arbitrary bytes never panics and always terminates",
 "Opening any byte sequence as a TDMS file returns either a handle or an error: it never panics, overflows, exhausts memory by trusting a length field, or loops for ever.",
 ["inputs"],"all byte strings up to the bound in length, in both byte orders; headers with every 64-bit offset and 32-bit count",
 "The fuzz target in the repository samples; malformed headers needing exact 64-bit values to overflow an addition are out of sampling reach.",
 ["src/file/mod.rs","src/meta_data.rs","src/io/reader.rs","src/io/data_types/strings.rs","src/index/building.rs","src/raw_data/mod.rs"],
 [("checked arithmetic","src/meta_data.rs total_size_bytes, src/raw_data/mod.rs chunk_size"),("fallible allocation","src/io/reader.rs read_vec, src/io/data_types/strings.rs")],
 ["TdmsFile::new"])

p("P17","Using a file opened from arbitrary bytes never panics",
 "Once opening some byte sequence has succeeded, listing groups and channels, asking for lengths and properties, and reading any channel with any start, type and output length returns a result or an error, and never panics or loops for ever, however inconsistent the header fields are.",
 ["inputs"],"all openable header contents within the bound (symbolic 64-bit counts and offsets, types, paths), all starts and output lengths",
 "The fuzz target only opens files; nothing explores reads on inconsistent but accepted headers.",
 ["src/file/channel_reader.rs","src/file/mod.rs","src/paths.rs","src/raw_data","src/index/mod.rs"],
 [("length bookkeeping","src/index/mod.rs channel_length"),("path parsing","src/paths.rs parse_path"),("block readers","src/raw_data/*_multi_channel_read.rs")],
 ["TdmsFile::list_groups","TdmsFile::list_channels_in_group","TdmsFile::channel_length","TdmsFile::read_channel_from"])

p("P18","A file cut off at any byte never yields wrong data",
 "If a valid file is cut off at an arbitrary byte, opening it either succeeds or reports an error. When it opens, every object, property and sample that lies completely before the cut is returned unchanged, and samples lost to the cut are reported as an error rather than returned as made-up values.",
 ["crash_points","inputs"],"every cut position in files of up to the bound's segments, arbitrary values, both layouts",
 "No test truncates a file.",
 ["src/file/mod.rs","src/meta_data.rs","src/raw_data","src/io/reader.rs"],
 [("end of file detection","src/meta_data.rs Segment::read"),("exact reads","src/io/data_types")],
 ["TdmsFile::new on a prefix","TdmsFile::read_channel"])

p("P19","Rejected requests change nothing",
 "A write that is refused - no channels, a value count not divisible by the channel count, or nothing to write - and a read or query that fails leave the file bytes and everything observable through the handle unchanged, and later operations behave as if the refused one had not been made.",
 ["histories","inputs"],"all placements of a refused request in short histories",
 "Tests check that the error is returned, not what state is left behind.",
 ["src/file/file_writer.rs","src/raw_data/write.rs","src/file/channel_reader.rs","src/index/building.rs"],
 [("validation before writing","src/file/file_writer.rs DataStreamWriter::new")],
 ["TdmsFileWriter::write_channels","TdmsFile::read_channel","bytes in the sink"])

p("P20","Object paths and names correspond, for every name",
 "A path built from a group name, or from a group and a channel name, reports those names back (single quotes appear in their escaped form), is recognised as a group or channel path accordingly, and parses back to an equal path. Names that differ after escaping give different paths, whatever characters they contain (slashes, quotes, spaces, empty, non-ASCII). Text that is not a well-formed path is rejected with an error and nothing panics.",
 ["inputs"],"all names up to the bound in length over arbitrary characters; all path texts up to the bound",
 "Tests use plain alphabetic names and a few malformed strings.",
 ["src/paths.rs"],
 [("escaping","src/paths.rs escape_name"),("parsing","src/paths.rs parse_path / path_levels")],
 ["PropertyPath","ChannelPath","TryFrom<&str>"])

p("P21","Listing returns exactly the groups and channels present",
 "Listing groups returns each group that was written, or is implied by a channel, exactly once. Listing the channels of a group returns exactly the channels of that group - none from groups with similar names - and every listed path can be used to query and read that channel.",
 ["inputs","histories"],"all sets of short group and channel names (including prefixes of each other and special characters) in any write order",
 "Tests use three fixed names.",
 ["src/file/mod.rs","src/index/querying.rs","src/paths.rs"],
 [("prefix range scan","src/index/querying.rs paths_starting_with"),("group extraction","src/paths.rs path_group_name")],
 ["TdmsFile::list_groups","TdmsFile::list_channels_in_group"])

p("P22","Short or interrupted transfers never change what is read or written",
 "However the underlying stream splits transfers - any sequence of short reads, short writes and interruptions allowed by the I/O contract - the data, properties and index read, and the bytes written, are the same as with full transfers.",
 ["schedules","fault_sequences","inputs"],"all sequences of transfer sizes and interruptions up to the bound",
 "All tests use in-memory buffers that always transfer everything.",
 ["src/io/reader.rs","src/io/writer.rs","src/meta_data.rs","src/io/data_types"],
 [("exact transfers","read_exact / write_all in src/io/data_types/*, src/meta_data.rs")],
 ["TdmsFile over an adversarial Read+Write+Seek"])

p("P23","I/O failures are reported and never produce wrong data",
 "If the underlying stream fails at any operation while opening or reading, the call reports an error, and retrying after the failure clears returns the correct data. If the stream fails while writing, either a write call or the following sync reports it: when all of them succeed, every byte has reached the stream.",
 ["fault_sequences","inputs"],"a failure at any read, seek, write or flush of an open, read or write history",
 "No test injects an I/O error.",
 ["src/file/mod.rs","src/io/reader.rs","src/io/writer.rs","src/file/file_writer.rs","src/raw_data"],
 [("error propagation","? on every transfer"),("flush on sync","src/io/writer.rs sync")],
 ["TdmsFile over a failing Read+Write+Seek","TdmsFileWriter::sync"])

p("P24","Files created or loaded by path keep the same guarantees",
 "Creating a file by path starts from an empty file whatever was there before, loading one keeps its content and allows both reading and appending, and loading a missing file is an error; the content seen through a path is the same as for the same bytes in memory.",
 ["histories","inputs"],"operations over a modelled file system holding arbitrary small files",
 "Only exercised by examples on the real disk with fixed data.",
 ["src/file/mod.rs"],
 [("open options","src/file/mod.rs TdmsFile::load / create")],
 ["TdmsFile::load","TdmsFile::create"])

p("P25","Timestamps convert to and from calendar time without shifting",
 "Converting a calendar time to a timestamp property and back returns the same instant to within the precision of the format, for every representable time, and times that cannot be represented are errors.",
 ["inputs"],"all representable timestamps",
 "One test converts the current time.",
 ["src/properties.rs"],
 [("chrono conversion","src/properties.rs chrono_support (feature chrono), labview-interop")],
 ["TryFrom<PropertyValue> for DateTime<Utc>"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
