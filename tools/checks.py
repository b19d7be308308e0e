"""What runs for each property."""
GEN = ["main.cpp", "gen_core.cpp", "gen_simple.cpp", "gen_table.cpp", "gen_codec.cpp"]
CHECKS = {}


def check(pid, **kw):
    kw.setdefault("config", "asan")
    kw.setdefault("level", "exploration")
    CHECKS[pid] = kw


TREE = GEN + ["tree_gen.cpp", "tree.cpp"]
GUIDED = TREE + ["demux.cpp", "scenario.cpp", "mutate.cpp", "guided.cpp"]
BOX_RULE = ("distinct (box variant, version, payload bytes) of generated well-formed boxes; every box kind is visited in "
            "round robin, list lengths include 0, hundreds and values above 65535")
check("C03", sources=GEN + ["boxes.cpp"], quick=24000, thorough=600000, rule=BOX_RULE, require={"boxes": 1000, "longest_lists": 100})
check("C04", sources=GEN + ["boxes.cpp"], quick=24000, thorough=500000, rule=BOX_RULE + "; distinct inputs of the coverage-guided part",
      require={"boxes": 1000, "foreign_descriptors": 1000, "cov.agreements": 200000, "cov.accepted": 200000, "cov.coverage_gained": 20000,
               "cov.max_edges_reached": 300},
      parts=[dict(prop="C04", sources=GEN + ["boxes.cpp"]),
             dict(prop="C04V", config="cov", exe="c04v", sources=GUIDED, quick=480, thorough=4000)])
check("C05", sources=GEN + ["boxes.cpp"], quick=24000, thorough=600000, rule=BOX_RULE, require={"boxes": 1000, "foreign_boxes": 1000})
check("C23", sources=GEN + ["boxes.cpp"], quick=40000, thorough=1500000,
      rule="distinct (box type, history of version/flag operations)", require={"operations": 10000, "through_bytes": 100})
check("C06", sources=["main.cpp", "bits.cpp"], quick=40000, thorough=2000000,
      rule="distinct sequences of field kinds, widths and start positions written, read back and compared with a bit-exact model",
      require={"sequences": 5000, "misaligned_reads": 5000, "misaligned_writes": 5000, "reads_past_end": 1000})
check("C08", sources=GEN + ["hdr.cpp"], quick=40000, thorough=1500000,
      rule="distinct (header form, type, size class, offset class) and box type strings",
      require={"header_32": 1000, "header_64": 1000, "header_eof": 1000, "truncated_headers": 1000, "type_pairs": 1000})
check("C07", sources=TREE, quick=12000, thorough=400000, rule="distinct shapes (types and nesting) of box trees with sizes around the header limits",
      require={"trees": 2000, "large_headers": 500, "relayouts": 500})
check("C19", sources=TREE, quick=8000, thorough=250000, rule="distinct files (shape, header forms and payload bytes)",
      require={"files": 2000, "headers_32": 1000, "headers_64": 1000, "headers_eof": 300, "built_trees": 100, "counted_names": 50})
check("C21", sources=TREE, quick=3000, thorough=100000, rule="distinct damaged files",
      parts=[dict(prop="C21", sources=TREE, tool=True),
             dict(prop="C21V", config="cov", exe="c21v", sources=GUIDED, quick=240, thorough=6000)],
      require={"cov.structures": 20000, "cov.structures_of_8_boxes": 4000, "cov.refused": 50000, "cov.coverage_gained": 100000,
               "undamaged": 1000, "damage.truncated": 1000, "damage.small": 1000, "damage.past-parent": 1000, "damage.shrunk": 300,
               "damage.count": 300, "damage.eof-inside": 100, "tool_runs_damaged": 100, "tool_runs_good": 50})
CLOCKS = "-Wl," + ",".join("--wrap=" + f for f in ("clock_gettime", "time", "gettimeofday", "timespec_get"))
check("C22", rule="distinct (block of 64 days, time zone setting); distinct (instant, clock step, recording)", exe="c22", quick=0, thorough=0, parts=[
          dict(config="asan", sources=GEN + ["misc.cpp"], quick=1160, thorough=60000),
          dict(config="asan", prop="C22R", exe="c22r", sources=TREE + ["demux.cpp", "scenario.cpp", "stamp.cpp"], link=CLOCKS, quick=12000, thorough=400000)],
      require={"days_visited": 73818})
check("C24", rule="distinct type codes and shapes of files with unknown boxes", exe="c24", quick=0, thorough=0, parts=[
          dict(config="asan", sources=TREE + ["misc.cpp"], quick=2400, thorough=100000),
          dict(config="asan", prop="C24F", sources=TREE + ["misc.cpp"], quick=5000, thorough=150000)],
      require={"registry_rows": 120, "unknown_boxes_over_64k": 50})
check("C25", sources=GEN + ["misc.cpp"], quick=8000, thorough=300000, rule="distinct (duration list, chunk list)",
      require={"duration_lists": 1000, "chunk_lists": 1000, "offsets_64": 500, "offsets_32": 500, "offsets_not_ascending": 500})

FUZZ = TREE + ["demux.cpp", "scenario.cpp", "mutate.cpp", "fuzz.cpp"]
check("C01", sources=FUZZ, quick=10000, thorough=150000, rule="distinct damaged inputs (box type and payload, or file)",
      parts=[dict(prop="C01", sources=FUZZ), dict(prop="C01V", config="cov", exe="c01v", sources=GUIDED, quick=360, thorough=4000)],
      require={"cov.files": 100, "cov.executions": 500000, "cov.accepted": 100000, "cov.refused": 50000, "cov.coverage_gained": 50000,
               "cov.max_edges_reached": 2000, "boxes": 10000, "files": 1000, "soups": 1000, "chains": 50, "damaged_recordings": 500, "accepted": 5000, "refused": 5000})
check("C02", sources=TREE + ["mutate.cpp", "alloc.cpp", "bounds.cpp"], config="plain", quick=20000, thorough=600000,
      rule="distinct inputs (box type and payload, or file)",
      require={"inflated_counts": 20000, "box_refused": 10000, "box_accepted": 1000, "file_accepted": 500, "file_refused": 500, "family.deep": 10, "family.tables": 5, "growth_comparisons": 8})

REC = TREE + ["demux.cpp", "scenario.cpp", "rec.cpp"]
REC_RULE = "distinct recordings (writer, tracks and timescales, numbers of calls, chunk terminations and bytes, durations)"
check("C09", sources=REC, quick=12000, thorough=400000, rule=REC_RULE, require={"recordings": 1000, "samples": 20000, "chunks": 5000, "max_media_bytes": 1000000, "max_samples_in_track": 65536})
check("C10", sources=REC, quick=8000, thorough=250000, rule=REC_RULE,
      require={"recordings": 800, "samples": 20000, "interleaved_writers": 200, "relative_templates": 200, "max_media_bytes": 1000000, "max_samples_in_track": 65536})
check("C11", sources=REC, quick=20000, thorough=700000, rule=REC_RULE,
      require={"recordings": 2000, "timestamps": 50000, "durations_64": 200, "durations_32": 2000, "shorter_than_samples": 200, "last_samples": 1000})
check("C12", sources=REC, quick=20000, thorough=700000, rule=REC_RULE + " with the key frame flags of every call",
      require={"video_tracks": 1000, "audio_tracks": 1000, "roll_tracks": 500, "key_frames": 5000, "max_roll_samples": 65536})
check("C13", sources=REC, quick=25000, thorough=900000, rule=REC_RULE,
      require={**{"tracks_" + k: 300 for k in ("AAC", "MP3", "OPUS", "AV1", "VP8", "VP9", "H264")}, "tracks_with_defaults": 1000, "zero_identifiers": 1000})
check("C14", sources=REC, quick=20000, thorough=800000, rule="distinct Annex B streams (first 60 bytes)",
      require={"nal_units": 10000, "h264_tracks": 1000, "parameter_sets": 1000, "unrepresentable": 1000, "sets_at_limit": 20, "sets_beyond_limit": 20})
VALGRIND = ["valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=20"]
check("C26", sources=REC + ["unwritten.cpp"], link="-Wl,--wrap=fwrite", quick=9000, thorough=300000,
      rule=REC_RULE + " with the places and kinds of the refused calls",
      require={"compared": 5000, "refused.gap": 5000, "refused.oversize": 5000, "refused.malformed": 3000, "refused.no_identifier": 3000,
               "refused.unwritten": 3000, "refused_in_the_middle": 500, "torn": 300})
check("C28", sources=TREE + ["demux.cpp", "scenario.cpp", "alloc.cpp", "cost.cpp"], config="plain", quick=1500, thorough=60000,
      rule="distinct plans (writer, tracks, number and size of samples, units, chunks, durations, key frames)",
      require={"recordings": 1000, "growth.samples": 2, "growth.chunks": 2, "growth.tracks": 2, "growth.units": 2, "growth.bytes": 4, "faststart": 300, "simple": 300,
               "max_media_bytes": 10000000, "max_samples_of_a_recording": 200000})
check("C27", sources=TREE + ["tool.cpp"], tool=True, quick=2000, thorough=60000, rule="distinct files and file names",
      require={"dumps": 3000, "dumps_with_traces": 500, "full": 400, "refused.cut": 50, "refused.missing": 100, "refused.directory": 100, "wrong_usage": 1000,
               "symbolic_links": 100, "standard_input": 200, "relative_names": 200, "help": 30, "directories_looked_at": 1000})
check("C20", rule=REC_RULE + "; in the memcheck part, cases", exe="c20", quick=0, thorough=0, parts=[
          dict(config="asan", sources=REC, quick=4000, thorough=100000),
          dict(config="plain", prop="C20I", exe="c20i", sources=TREE + ["mutate.cpp", "demux.cpp", "scenario.cpp", "init.cpp"], wrapper=VALGRIND,
               quick=5000, thorough=60000)],
      require={"pairs": 500, "repetitions": 1000, "dumps": 100, "plain.bytes_checked": 100000, "plain.boxes_from_values": 500,
               "plain.boxes_from_damaged_bytes": 500, "plain.files_accepted": 200, "plain.simple": 50, "plain.faststart": 50})
check("C15", sources=TREE + ["demux.cpp", "scenario.cpp", "large.cpp"], config="plain", link="-Wl,--wrap=fwrite", quick=64, thorough=3000,
      rule="distinct plans (writer, tracks, sample sizes and chunk ends)",
      require={"header_64": 10, "header_32": 4, "offsets_64": 10, "offsets_32": 10, "faststart": 10, "simple": 10, "oversized_samples": 1,
               "samples_beyond_4g": 20, "vast": 2})
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("fwrite", "fread", "fseek", "ftell", "fclose", "fdopen", "mkstemp", "fflush"))
check("C16", sources=TREE + ["demux.cpp", "scenario.cpp", "fault.cpp"], link=WRAP, quick=4000, thorough=60000, level="fault_enumeration",
      rule="distinct (recording or file, fault kind, fault point)",
      require={"faults.output-once": 500, "faults.output-stays-broken": 500, "faults.output-throws": 500, "faults.output-full": 500,
               "faults.file-limit": 200, "faults.truncated": 50, "faults.input-once": 500, "faults.input-short": 500,
               "faults.part-output": 5000, "faults.part-input": 5000})
check("C17", sources=TREE + ["demux.cpp", "scenario.cpp", "mutate.cpp", "leak.cpp"], link="-Wl,--wrap=fdopen,--wrap=mkstemp", quick=6000, thorough=300000,
      rule="distinct (input or recording, way of ending)",
      require={"files": 300, "damaged_files": 300, "boxes": 500, "trees": 300, "complete_recordings": 200, "failing_recordings": 200,
               "abandoned_recordings": 200, "recordings_with_too_many_sets": 100, "broken_intermediate_files": 100, "failing_constructors": 50, "relative_templates": 200})
check("C18", sources=TREE + ["demux.cpp", "scenario.cpp", "mutate.cpp", "conc.cpp"], config="tsan", shards=16, quick=640, thorough=12000,
      rule="distinct results of a thread (all texts it produced)", require={"threads": 500, "recordings": 2000, "same_work": 30, "different_work": 60})

# deciding method and what it gives, per property
SAN = "Everything runs under AddressSanitizer, UndefinedBehaviorSanitizer (float casts included) and libstdc++ assertions. "
NOTES = {
    "C01": ("sanitizer-monitored fuzzing of every box parser and of the file reader (ASan/UBSan, libstdc++ assertions)",
            "Structure-aware mutation of generated boxes, files and recordings, foreign payloads, random and deep nesting, and coverage-guided mutation. " + SAN + "Not exhaustive."),
    "C02": ("allocation and input-operation counters in the process, judged against linear bounds",
            "Every element count is overwritten with huge values; large inputs of several shapes up to a few MB. Not exhaustive."),
    "C03": ("differential monitor: library encoder against an independent encoder, under ASan/UBSan",
            "Generated boxes of every kind; the oracle is an encoder written from the specifications. " + SAN + "Not exhaustive."),
    "C04": ("round-trip monitor over generated wire bytes and coverage-guided inputs, under ASan/UBSan",
            "Whatever a box accepts is written, read and written again. Bytes of the first part come from an independent encoder; read, dumped, rewritten and compared. " + SAN + "Not exhaustive."),
    "C05": ("size-accounting monitor on every write and read, under ASan/UBSan",
            "Declared, reported, written, consumed and header sizes compared on generated boxes. " + SAN + "Not exhaustive."),
    "C06": ("lock-step bit-exact model of reader and writer, under ASan/UBSan",
            "Random operation sequences are executed by the library and by a bit-string model. " + SAN + "Not exhaustive."),
    "C07": ("layout monitor: independent layout and encoding of generated box trees, under ASan/UBSan",
            "Sizes around and beyond 4 GiB use a box whose payload is only counted and a sparse stream. " + SAN + "Not exhaustive."),
    "C08": ("monitor over header and type operations against an independent encoding, under ASan/UBSan",
            "All header forms, edge sizes and offsets, truncations; not exhaustive over 64-bit values."),
    "C09": ("independent demultiplexer over generated recordings, under ASan/UBSan",
            "Random call sequences on every track kind; each sample followed through the tables and compared. " + SAN + "Not exhaustive."),
    "C10": ("independent demultiplexer plus file-system monitor over generated recordings, under ASan/UBSan",
            "As C09 for the faststart writer; the directory of the intermediate file is compared before, during and after. " + SAN + "Not exhaustive."),
    "C11": ("decoding of the recorded time tables against the timestamps given, under ASan/UBSan",
            "Constant, jittering, zero and near-limit gaps, late starts, durations beyond 32 bits; durations compared within float precision. " + SAN),
    "C12": ("comparison of recorded sync and roll tables with the calls made, under ASan/UBSan",
            "Random key frame flags and sample counts on every track kind. " + SAN + "Not exhaustive."),
    "C13": ("comparison of recorded metadata with an independent encoding of the configuration, under ASan/UBSan",
            "Random parameters of every track kind and both writers; sample descriptions compared byte for byte. " + SAN),
    "C14": ("comparison with generated Annex B streams, under ASan/UBSan",
            "Streams full of near-start-codes, all unit types, damaged streams, parameter set counts at and beyond the limits. " + SAN),
    "C15": ("independent demultiplexer over recordings of up to 12 GiB on sparse streams",
            "Sizes and offsets just below, at and beyond 2^32, samples over 4 GiB, both writers, the intermediate file stood in by a sparse one. Not exhaustive."),
    "C16": ("fault injection at every kind of I/O operation with completeness monitor, under ASan/UBSan",
            "Output, intermediate file and input fail once, from a point on, throw, fill up or come to an early end; fault points enumerated for small recordings, sampled for larger. " + SAN),
    "C17": ("live-heap, descriptor and directory accounting around each operation, under ASan/UBSan",
            "Allocation hooks count live blocks before and after; complete, failing, abandoned, damaged and refused operations. Out-of-memory is not injected."),
    "C18": ("ThreadSanitizer plus comparison with the same work done alone",
            "Five threads enter each phase together through an unordered barrier, with random yields in the streams; schedules are sampled."),
    "C20": ("differential monitor (both writers, repetition, work in between) under ASan/UBSan, and definedness of every output byte under valgrind memcheck",
            "Movie boxes of both writers compared byte for byte apart from times and places. " + SAN + "Not exhaustive."),
    "C19": ("online comparison of the dump with an independently computed one, under ASan/UBSan",
            "Generated files with all header forms, unknown boxes, QuickTime meta, deep nesting. " + SAN + "Not exhaustive."),
    "C21": ("fault injection into generated files; acceptance/termination monitor on reader and mp4-tool, under ASan/UBSan",
            "Cuts, undersized and oversized boxes, shrunken parents, inflated counts; the tool is run as a process; coverage-guided files are compared with their dumps."),
    "C22": ("runtime comparison with an independent calendar, every day of the supported range, several TZ settings; recordings under a controlled clock",
            "Every day from 1904 to the end of the supported range is visited (three instants each); seconds are sampled. Recordings are made at sampled instants from 1904 to 2242."),
    "C23": ("history monitor of version and flag operations against a bit-set model, under ASan/UBSan",
            "Random histories over every box kind, through bytes and dumps. Not exhaustive."),
    "C24": ("registry conformance monitor plus insertion of unknown boxes into generated files, under ASan/UBSan",
            "All registered types are visited on every run; unknown types are sampled, close neighbours of known ones included."),
    "C25": ("expansion monitor of run-length tables, under ASan/UBSan",
            "Generated duration and chunk lists, up to 66000 long, offsets around 4 GiB; not exhaustive."),
    "C26": ("comparison of recordings with and without refused calls, under ASan/UBSan",
            "Refused calls of every kind are put at random places of generated histories; the file is compared byte for byte with the undisturbed one. " + SAN),
    "C27": ("mp4-tool run as a process under ASan/UBSan; status, both streams and the directory compared with what the generated file predicts",
            "The tool is started with generated files, names, options and environments, with refused files, wrong command lines and outputs that cannot be written. " + SAN),
    "C28": ("counting of allocations, processor time and output operations while recordings are made, against bounds and against one eighth of the work",
            "Every dimension (samples, chunks, tracks, units, bytes) is enlarged eightfold on both writers, and random plans are held to absolute bounds. Not exhaustive."),
}
