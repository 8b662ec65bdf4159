#!/usr/bin/env python3
# writes properties.jsonl (kept as code so that long texts stay readable)
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, obs=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs or ["return values of the public API"], "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)
O = "src/osu_file/"
p("C01", "Parsing and printing never crash",
  "For every text and every supported format version (3 to 14), parsing a whole file, a storyboard file, a section or a single line ends with a value, with 'nothing in this version' or with a reported error, never with a panic or an arithmetic overflow. Printing any value that was parsed, with the version it was parsed with, does not crash either. The same holds for storyboard variables being substituted and for derived values (bpm, slider velocity, animation frame names of a frame count that fits into memory) of parsed objects.",
  ["inputs"], "every text, every version 3..=14, every parsed value",
  "The parsers unwrap, slice by byte index, subtract lengths and do plain integer arithmetic in many places; tests feed a few well-formed files and a few malformed lines, while the crash needs one particular number, an empty piece or a multi-byte character in one particular field.",
  [O + "mod.rs", O + "events/mod.rs", O + "events/normal_event/parsers.rs", O + "events/storyboard/cmds/types.rs", O + "hitobjects/mod.rs", O + "timingpoints/mod.rs", O + "metadata/mod.rs", "src/parsers.rs", "src/helper/macros.rs"],
  [("section dispatch and line counting", O + "mod.rs OsuFile::from_str"), ("error conversion with unreachable!", "src/helper/macros.rs verbose_error_to_error"), ("unwraps on version-optional results", "src/parsers.rs")])
p("C02", "Hit objects and timing points survive print and re-parse",
  "If a line is accepted as a hit object or timing point of a format version, then printing the value with that version gives a line that the same version accepts again, and printing that result gives the identical line. The re-read value is equal to the first one in every field that the version's text format carries, including position, time, type and combo information, hit sounds, slider path, slides, length, edge sounds and sets, end times, samples, beat length, meter, sample set and index, volume, inherited flag and effects.",
  ["inputs"], "every accepted line, every version 3..=14",
  "Tests round-trip complete files with one typical object of each kind; the optional tails of the line (short hands, empty lists, missing samples), versions with different layouts and numbers at type limits multiply to far more shapes than they sample.",
  [O + "hitobjects/mod.rs", O + "hitobjects/types.rs", O + "timingpoints/mod.rs", O + "timingpoints/types.rs", "src/parsers.rs"],
  [("HitObject parse/print", O + "hitobjects/mod.rs"), ("TimingPoint parse/print", O + "timingpoints/mod.rs"), ("HitSample, EdgeSet, CurvePoint codecs", O + "hitobjects/types.rs")])
p("C03", "Each field of a line is stored in the place it is documented for",
  "A hit object, timing point or event line assembled from valid field texts in the documented order is accepted, and every field of the parsed value equals the value of the text at its documented position. Printing a value writes every field back at that same position, so no two fields are exchanged, dropped or altered.",
  ["inputs"], "every choice of valid field values, every version",
  "Two errors that mirror each other in parser and printer cancel out in round-trip tests; only a statement about the position of every field for arbitrary distinct values excludes them.",
  [O + "hitobjects/mod.rs", O + "hitobjects/types.rs", O + "timingpoints/mod.rs", O + "events/normal_event/mod.rs", O + "events/storyboard/sprites.rs", O + "events/audio_sample/mod.rs"],
  [("tuple parsers and the struct literals that follow", O + "hitobjects/mod.rs"), ("field vectors joined by commas", O + "timingpoints/mod.rs")])
p("C04", "A parse error names the offending line",
  "When a text is rejected, the zero-based line index in the error is the index of the line that is at fault: the first line of a section that its section cannot accept, the header line for an unknown or duplicate section, or the unexpected line before the first section. This holds wherever the section or line stands in the file and whatever blank lines surround it.",
  ["inputs"], "every rejected text with any number of preceding lines, sections and blank lines",
  "The index is accumulated from pieces (white space runs, section bodies, per-section offsets); tests check one fixed layout per error, and the sums only go wrong for particular combinations of blank lines and preceding sections.",
  [O + "mod.rs", "src/helper/macros.rs", O + "types.rs", O + "events/mod.rs", O + "hitobjects/mod.rs", O + "timingpoints/mod.rs", O + "colours/mod.rs", O + "osb/mod.rs"],
  [("line_number accumulation", O + "mod.rs"), ("processing_line adds the section's offset", O + "types.rs"), ("line_count in key-value sections", "src/helper/macros.rs")])
p("C05", "The format version decides which fields exist and are written",
  "Values that only some format versions have are read, defaulted and written exactly in those: the modes osu in 3 and later, taiko from 5, catch from 7, mania from 10 (each of them is written in every version); countdown from 5; the general sample set from 4; overlay position from 14; colours from 5; storyboard files from 14. Written only in their range are the audio hash (up to 13, likewise its default), the editor bookmarks and distance spacing of the general section (up to 5), the editor's current time (10 only), colour transformations (up to 13), hit samples (not up to 9, three parts in 10 and 11, five parts from 12), and the fields of a timing point (time and beat length in 3; meter, sample set and sample index from 4; volume from 5 or, in 4, when it is not 100; inherited flag and effects from 5). Every range is exact at its first and last version.",
  ["inputs", "configurations"], "every version 0..=255 where it is a parameter, every value",
  "The ranges are written as separate comparisons in every parser, printer and default; tests use a handful of versions and so cannot see a range that is off by one in only one of these places.",
  [O + "general/types.rs", O + "general/mod.rs", O + "editor/mod.rs", O + "colours/mod.rs", O + "osb/mod.rs", O + "events/normal_event/mod.rs", O + "hitobjects/types.rs", O + "timingpoints/mod.rs"],
  [("version comparisons in from_str/to_string/default", O + "general/types.rs")])
p("C06", "Times of format versions 3 and 4 are shifted by 24 ms both ways",
  "Reading a time of a hit object, spinner or hold end, timing point, video, break or colour transformation in version 3 or 4 yields the written number plus 24, in every later version exactly the written number; the times of backgrounds, legacy samples and audio samples are never shifted. Printing subtracts the same amount in exactly the same versions, so a value never drifts when it is read and written. (A number whose sum cannot be represented is kept as it is written or rejected, never changed.)",
  ["inputs"], "every number accepted as a time, every version 3..=14",
  "The offset is applied in about ten separate places with a version condition of its own; tests check one or two of them for a single number.",
  [O + "hitobjects/mod.rs", O + "timingpoints/mod.rs", O + "events/mod.rs", O + "events/normal_event/parsers.rs", O + "events/normal_event/mod.rs"],
  [("OLD_VERSION_TIME_OFFSET", O + "hitobjects/mod.rs"), ("start_time_offset, end_time, time_to_string", O + "events/normal_event/parsers.rs, " + O + "events/mod.rs")])
p("C07", "Single-field codecs are exact inverses",
  "For every enumeration and small value type of the format (modes, sample sets, overlay position, countdown, curve type, layers, origins, easings, parameters, loop types, volumes, sample indices, hit sounds, effects, curve points, edge sets, hit samples, colours), parsing the printed text of a value gives that value back. Different values never print the same text, and each enumerated value prints the number or name that the format documents for it; texts outside the documented set are rejected.",
  ["inputs"], "every value of every such type and every text, in every version that has it",
  "The mappings are written twice, once per direction; tests touch a few of the variants, so two variants exchanged in one direction or a number accepted that should be rejected goes unnoticed.",
  [O + "general/types.rs", O + "hitobjects/types.rs", O + "timingpoints/types.rs", O + "events/storyboard/types.rs", O + "events/storyboard/sprites.rs", O + "events/normal_event/types.rs", O + "events/audio_sample/mod.rs", O + "colours/types.rs"],
  [("from_str/to_string/from_repr pairs", O + "general/types.rs")])
p("C08", "Flag bits are independent of each other",
  "The bits of a hit object's type number, of a hit sound and of a timing point's effects are each read and written on their own: reading a number sets exactly the properties whose bits are set, setting or clearing one property changes only its own bit, and the written number contains exactly the bits of the properties that hold, with the combo skip count in its three bits.",
  ["inputs"], "every number and every sequence of property changes",
  "There are 256 combinations per byte and a pair of accessors per bit; tests look at two or three numbers.",
  [O + "hitobjects/mod.rs", O + "hitobjects/types.rs", O + "timingpoints/types.rs", "src/helper/mod.rs"],
  [("type_to_string and nth_bit_state_i64", O + "hitobjects/mod.rs, src/helper/mod.rs"), ("HitSound and Effects accessors", O + "hitobjects/types.rs, " + O + "timingpoints/types.rs")])
p("C09", "Forbidden values cannot be constructed",
  "Values outside a type's documented range or shape are rejected by every way to create or change the value: combo skip counts above 7, volumes outside their range (hit samples 1 to 100, audio samples 0 to 100; timing points take any number), unknown enumeration numbers, and continuing command fields of the wrong length. A rejected change leaves the value as it was, and an accepted one stores exactly what was given.",
  ["inputs", "histories"], "every argument of every constructor and setter, every sequence of pushes and sets",
  "Tests use values well inside the range; limits and the effect of a failed update on the previous state are not looked at.",
  [O + "hitobjects/types.rs", O + "timingpoints/types.rs", O + "events/audio_sample/mod.rs", O + "events/storyboard/cmds/types.rs", O + "events/storyboard/cmds/mod.rs"],
  [("TryFrom/set functions", O + "hitobjects/types.rs"), ("ContinuingFields and ContinuingRGBs", O + "events/storyboard/cmds/types.rs")])
p("C10", "Storyboard commands keep their content and nesting",
  "A storyboard command line that is accepted prints back to a line that is accepted as an equal command. Commands pushed with indentation become children of the loop or trigger that their indentation designates, in order, and a push that fits nowhere is refused without changing the object; printing an object with its commands and parsing it again gives the same tree for every depth of nesting.",
  ["inputs", "histories"], "every command line, every sequence of command lines with indentation",
  "Command kinds, short hands, continuing values and nesting depth combine freely; tests contain a few fixed scripts.",
  [O + "events/storyboard/cmds/mod.rs", O + "events/storyboard/cmds/types.rs", O + "events/storyboard/sprites.rs", O + "events/mod.rs"],
  [("Command parse/print", O + "events/storyboard/cmds/mod.rs"), ("try_push_cmd", O + "events/mod.rs"), ("commands_to_string_variables", O + "events/mod.rs")])
p("C11", "Key-value sections map every key to its own field exactly once",
  "In the general, editor, metadata and difficulty sections, each known key sets its own field and no other, in whatever order the keys appear; fields whose key is absent stay unset, and a repeated or unknown key or a line without a key is an error. Printing writes exactly the set fields under their own keys with the version's spelling, and reading that text gives the section back.",
  ["inputs"], "every set, order and value of keys, every version",
  "There are dozens of keys across four sections generated by one macro; tests contain a few complete sections in their usual order.",
  ["src/helper/macros.rs", O + "general/mod.rs", O + "editor/mod.rs", O + "metadata/mod.rs", O + "difficulty/mod.rs", "src/parsers.rs"],
  [("general_section macro", "src/helper/macros.rs"), ("get_colon_field_value_lines", "src/parsers.rs")])
p("C12", "A file is the independent sum of its sections",
  "Parsing a file gives, for each section present, exactly what parsing that section's text alone (without the blank lines in front of it and without its last line break) with the file's version gives, in whatever order the sections stand; absent sections stay absent, and unknown or repeated sections, text before the first section and unsupported or malformed version lines are errors. Printing a parsed file gives a text that is accepted again and prints identically.",
  ["inputs"], "every file: any sections in any order with any content, empty sections, blank lines, line ends",
  "Tests use complete files in the usual order; empty sections, reordered sections and sections adjacent to each other are not covered.",
  [O + "mod.rs", "src/parsers.rs"],
  [("OsuFile::from_str dispatch", O + "mod.rs"), ("square_section", "src/parsers.rs"), ("Display for OsuFile", O + "mod.rs")])
p("C13", "Storyboard files and their variables keep their meaning",
  "A storyboard file that is accepted prints to a text that is accepted again and prints identically. A [Variables] section in front of [Events] keeps its variables in order with their exact names and values, every occurrence of a variable in a command is read as its value (for names that do not begin with one another and values without a $ of their own), and attaching or replacing a storyboard file changes nothing else of the beatmap; a rejected storyboard file leaves the beatmap as it was.",
  ["inputs", "histories"], "every storyboard text, every variable list",
  "Tests contain one or two variables whose values do not overlap; prefixes, repeated values and unusual characters are not covered.",
  [O + "osb/mod.rs", O + "osb/types.rs", O + "events/mod.rs", O + "mod.rs"],
  [("Osb::from_str and variables", O + "osb/mod.rs"), ("substitution", O + "events/mod.rs"), ("append_osb", O + "mod.rs")])
p("C14", "Event and colour lines survive print and re-parse",
  "If a line is accepted as a background, video, break, colour transformation, legacy sprite, animation or sample, storyboard sprite or animation, audio sample or colour entry, then printing it gives a line that is accepted again as an equal value, with file names, quotes, optional positions, optional volumes and short or long event names kept. A file name prints with quotes exactly when it contains a space or already has them, and counts as equal to the name with the quotes it gained.",
  ["inputs"], "every accepted line of every event and colour kind, every version",
  "The optional parts of each event kind and file names with spaces or quotes combine to many shapes, of which tests see the usual ones.",
  [O + "events/normal_event/mod.rs", O + "events/normal_event/parsers.rs", O + "events/storyboard/sprites.rs", O + "events/audio_sample/mod.rs", O + "colours/mod.rs", O + "types.rs"],
  [("event parse/print pairs", O + "events/normal_event/mod.rs"), ("file_name_and_position", O + "events/normal_event/parsers.rs"), ("FilePath printing", O + "types.rs")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
