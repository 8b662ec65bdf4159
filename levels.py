DEFAULT_NOTE = "Obligations of the contracts are discharged for all inputs on the MIR of /repo's current source. Library functions are represented by contracts (contracts_on_library in the evidence); the verifier (mirv) is trusted, its paths are validated natively by sampling."
MIXED = "Mixed: part of the contracts are proved for all inputs, the rest are bounded stand-ins (not counted as proved)."
LEVEL = {"C01": "other", "C02": "other", "C09": "other", "C10": "other", "C13": "other"}
NOTE = {
 "C01": MIXED + " Proved: parsing and printing of every single value, line and object without lists. Bounded: texts of many lines or list items, whole files (recursive descent over unbounded repetition), the frame names of an animation.",
 "C02": MIXED + " Proved: circles, spinners, holds and timing points of all versions. Bounded: sliders (at most three curve points and edge entries).",
 "C09": MIXED + " Proved: volumes (parsed and set), the combo skip count, the start values of colour commands. Bounded: continuing fields of commands (at most three, because the check runs over a list).",
 "C10": MIXED + " Proved: each command with one or two complete groups of values, triggers and loops. Bounded: short hand forms with more fields, more continuing groups, command trees of more than six pushes.",
 "C13": MIXED + " Proved: attaching a storyboard file, variables and their printing. Bounded: substitution inside a line (searching for a symbolic pattern is outside the verifier's reach; names come from a list).",
 "C04": "As the others; sections of any number of lines by loop invariants. One contract (p04_timing_points) and the whole-file scan (p04_one_section, p04_storyboard) are bounded stand-ins.",
}
NA = {}
