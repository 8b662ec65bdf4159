//! the key: value sections
use crate::ghost::*;
use crate::specs::codecs::any_version;
use osu_file_parser::osu_file::types::Error;
use osu_file_parser::osu_file::*;

/// what a key: value section is: its fields, their keys, and what one line means
pub trait Section: Sized + PartialEq + Clone {
    type E;
    const KEYS: &'static [&'static str];
    /// the line `key:value` on its own; `None`: the key is unknown, `Some(false)`: the value is rejected
    fn line(&mut self, key: &str, value: &str, v: u8) -> Option<bool>;
    /// the text that a field must print, with its key; `None`: nothing is printed
    fn shown(&self, key: &str, v: u8) -> Option<String>;
    fn empty() -> Self;
    /// take the list values by their contract
    fn lists();
    fn parse(s: &str, v: u8) -> Result<Option<Self>, Error<Self::E>>;
    fn print(&self, v: u8) -> Option<String>;
}
macro_rules! section {
    ($t:ident, $m:ident, [$($list:ident)?], |$k:ident, $v:ident| $gap:expr, $($f:ident: $ft:ident),*) => {
        impl Section for $t {
            type E = $m::ParseError;
            const KEYS: &'static [&'static str] = &[$(stringify!($ft)),*];
            fn line(&mut self, key: &str, value: &str, v: u8) -> Option<bool> {
                $(if key == stringify!($ft) {
                    return Some(match $m::$ft::from_str(value, v) { Ok(x) => { self.$f = x; true } Err(_) => false });
                })*
                None
            }
            fn shown(&self, $k: &str, $v: u8) -> Option<String> {
                $(if $k == stringify!($ft) {
                    let t = match &self.$f { Some(x) => x.to_string($v), None => None };
                    return match t { Some(t) => Some(format!("{}:{}{}", $k, $gap, t)), None => None };
                })*
                None
            }
            fn lists() { $(use_codec::<$m::$list>();)? }
            fn empty() -> Self { $t { $($f: None),* } }
            fn parse(s: &str, v: u8) -> Result<Option<Self>, Error<Self::E>> { $t::from_str(s, v) }
            fn print(&self, v: u8) -> Option<String> { self.to_string(v) }
        }
    };
}
section!(General, general, [EditorBookmarks], |_k, _v| " ", audio_filename: AudioFilename, audio_lead_in: AudioLeadIn, audio_hash: AudioHash, preview_time: PreviewTime, countdown: Countdown, sample_set: SampleSet, stack_leniency: StackLeniency, mode: Mode, letterbox_in_breaks: LetterboxInBreaks, story_fire_in_front: StoryFireInFront, use_skin_sprites: UseSkinSprites, always_show_playfield: AlwaysShowPlayfield, overlay_position: OverlayPosition, skin_preference: SkinPreference, epilepsy_warning: EpilepsyWarning, countdown_offset: CountdownOffset, special_style: SpecialStyle, widescreen_storyboard: WidescreenStoryboard, samples_match_playback_rate: SamplesMatchPlaybackRate, editor_bookmarks: EditorBookmarks, editor_distance_spacing: EditorDistanceSpacing);
section!(Editor, editor, [Bookmarks], |_k, _v| " ", bookmarks: Bookmarks, distance_spacing: DistanceSpacing, beat_divisor: BeatDivisor, grid_size: GridSize, timeline_zoom: TimelineZoom, current_time: CurrentTime);
section!(Metadata, metadata, [Tags], |_k, _v| "", title: Title, title_unicode: TitleUnicode, artist: Artist, artist_unicode: ArtistUnicode, creator: Creator, version: Version, source: Source, tags: Tags, beatmap_id: BeatmapID, beatmap_set_id: BeatmapSetID);
section!(Difficulty, difficulty, [], |k, v| if v <= 4 && (k == "SliderMultiplier" || k == "SliderTickRate") { " " } else { "" }, hp_drain_rate: HPDrainRate, circle_size: CircleSize, overall_difficulty: OverallDifficulty, approach_rate: ApproachRate, slider_multiplier: SliderMultiplier, slider_tickrate: SliderTickRate);

fn value(label: &str) -> &'static str {
    let s = any_str_not(label, "\r\n");
    if s.is_empty() { cover("an empty value"); }
    assume(!first_in(s, " \t"));
    s
}
/// one line: its key decides alone which field is set
fn one_line<T: Section>() {
    T::lists();
    let v = any_version();
    let k = any_str_not("key", ":\n");
    // a blank in front of the key is not part of it
    if k.is_empty() { cover("no key"); }
    assume(!first_in(k, " \t\r"));
    let gap = any_str_of("gap", " \t");
    let x = value("value");
    let end = any_str_of("end", "\r\n \t");
    if end.is_empty() { cover("no line end"); } else { assume(first_in(end, "\r\n")); }
    let r = T::parse(&format!("{k}:{gap}{x}{end}"), v);
    let mut want = T::empty();
    match (want.line(k, x, v), r) {
        (Some(true), Ok(Some(g))) => { cover("a known key"); ensure("the line sets the field of its key and no other", g == want) }
        (Some(true), _) => ensure("a known key with a valid value is accepted", false),
        (Some(false), r) => ensure("an invalid value is an error of its line", match r { Err(e) => e.line_index() == 0, _ => false }),
        (None, r) => ensure("an unknown key is an error of its line", match r { Err(e) => e.line_index() == 0, _ => false }),
    }
}
fn index(label: &str, n: usize) -> usize {
    let i = any_u8(label) as usize;
    assume(i < n);
    let mut k = 0;
    while k < n { if i == k { return k; } k += 1; }
    0
}
/// two lines in any order
fn two_lines<T: Section>(lo: usize, hi: usize) {
    T::lists();
    let v = any_version();
    let i = index("first key", T::KEYS.len());
    assume(i >= lo && i < hi);
    let k1 = T::KEYS[i];
    let k2 = any_str_not("second key", ":\n");
    let (x1, x2) = (value("first value"), value("second value"));
    let mid = any_str_of("line end", "\r\n");
    assume(first_in(mid, "\r\n"));
    // a blank in front of the key is not part of it
    if k2.is_empty() { cover("no second key"); }
    assume(!first_in(k2, " \t\r"));
    let lines = mid.matches('\n').count();
    let mut want = T::empty();
    if want.line(k1, x1, v) != Some(true) { return; }
    let r = T::parse(&format!("{k1}:{x1}{mid}{k2}:{x2}"), v);
    if k1 == k2 {
        cover("repeated");
        ensure("a repeated key is an error of the second line", match r { Err(e) => e.line_index() == lines, _ => false });
        return;
    }
    match (want.line(k2, x2, v), r) {
        (Some(true), Ok(Some(g))) => { cover("two keys"); ensure("each line sets the field of its key and no other", g == want) }
        (Some(true), _) => ensure("known keys with valid values are accepted", false),
        (_, r) => ensure("an unknown key or invalid value is an error of the second line", match r { Err(e) => e.line_index() == lines, _ => false }),
    }
}
/// a line without a key
fn no_key<T: Section>() {
    T::lists();
    let v = any_version();
    let i = index("key", T::KEYS.len());
    let x = value("value");
    let mid = any_str_of("line end", "\r\n \t");
    assume(first_in(mid, "\r\n"));
    let bad = any_str_not("line without a key", ":\r\n");
    if bad.trim().is_empty() { cover("blank"); }
    assume(!bad.trim().is_empty() && !first_in(bad, " \t"));
    let mut want = T::empty();
    if want.line(T::KEYS[i], x, v) != Some(true) { return; }
    cover("a line without a key");
    match T::parse(&format!("{}:{x}{mid}{bad}", T::KEYS[i]), v) {
        Err(e) => ensure("a line without a key is the line of the error", e.line_index() == mid.matches('\n').count()),
        _ => ensure("a line without a key is an error", false),
    }
}
/// any two set fields are printed under their keys, in the order of the section
fn print_two<T: Section>(lo: usize, hi: usize) {
    T::lists();
    let v = any_version();
    let i = index("first field", T::KEYS.len());
    let j = index("second field", T::KEYS.len());
    assume(i <= j && i >= lo && i < hi);
    let (x, y) = (value("first value"), value("second value"));
    let mut g = T::empty();
    if g.line(T::KEYS[i], x, v) != Some(true) { return; }
    if i < j && g.line(T::KEYS[j], y, v) != Some(true) { return; }
    let a = g.shown(T::KEYS[i], v);
    let b = if i < j { g.shown(T::KEYS[j], v) } else { None };
    let all = a.is_some() && (b.is_some() || i == j);
    let want = match (a, b) { (Some(a), Some(b)) => format!("{a}\n{b}"), (Some(a), None) => a, (None, Some(b)) => b, _ => String::new() };
    match g.print(v) {
        Some(t) => {
            ensure("exactly the set fields are printed under their keys", t == want);
            match T::parse(&t, v) {
                Ok(Some(h)) => {
                    if all { cover("printed"); ensure("reading the printed section gives it back", g == h); }
                    ensure("printing again gives the same text", match h.print(v) { Some(u) => u == t, None => false });
                }
                _ => ensure("the printed section is accepted", false),
            }
        }
        None => ensure("a section is printed in every version", false),
    }
}
/// every field set
fn print_all<T: Section>(vals: &[&str], hidden: impl Fn(&str, u8) -> bool) {
    T::lists();
    let v = any_version();
    let mut g = T::empty();
    let mut want = String::new();
    let mut i = 0;
    while i < T::KEYS.len() {
        let k = T::KEYS[i];
        if g.line(k, vals[i], v) != Some(true) { ensure("the value is valid", false); return; }
        if !hidden(k, v) {
            match g.shown(k, v) {
                Some(t) => { if !want.is_empty() { want.push('\n'); } want.push_str(&t); }
                None => ensure("the field is printed", false),
            }
        } else { ensure("the field is not printed", g.shown(k, v).is_none()); }
        i += 1;
    }
    cover("all fields");
    match g.print(v) {
        Some(t) => {
            ensure("all fields are printed in order", t == want);
            match T::parse(&t, v) {
                Ok(Some(h)) => ensure("printing again gives the same text", match h.print(v) { Some(u) => u == t, None => false }),
                _ => ensure("the printed section is accepted", false),
            }
        }
        None => ensure("a section is printed in every version", false),
    }
}
/// a value that the key accepts
fn sample(k: &str) -> &'static str { if k == "SampleSet" { "Normal" } else if k == "OverlayPosition" { "Below" } else { "0" } }
fn blank(label: &str) -> &'static str {
    let g = any_str_of(label, " \t\r\n");
    assume(first_in(g, "\r\n"));
    g
}
/// the line of the first line at fault, whatever blank lines stand in front of it and between the lines
fn error_line<T: Section>() {
    T::lists();
    let v = any_version();
    let lead = any_str_of("in front", " \t\r\n");
    let (g1, g2) = (blank("after the first line"), blank("after the second line"));
    let i = index("first key", T::KEYS.len());
    let (k1, k2, other) = (T::KEYS[i], T::KEYS[(i + 1) % T::KEYS.len()], T::KEYS[(i + 2) % T::KEYS.len()]);
    let start = format!("{lead}{k1}:{}{g1}{k2}:{}{g2}", sample(k1), sample(k2));
    let after = if any_bool("more lines") { "\nno key" } else { "" };
    let kind = any_u8("kind of line");
    let line = match kind {
        0 => {
            let t = any_str_not("line without a key", ":\r\n");
            assume(!t.trim().is_empty() && !first_in(t, " \t"));
            t.to_string()
        }
        1 => {
            let k = any_str_not("unknown key", ":\r\n");
            if k.is_empty() { cover("no key"); } else { assume(!first_in(k, " \t")); }
            assume(!T::KEYS.contains(&k));
            format!("{k}:{}", value("value"))
        }
        2 => format!("{k1}:{}", value("value")),
        3 => format!("{k2}:{}", value("value")),
        4 => {
            let x = value("value");
            if T::empty().line(other, x, v) != Some(false) { return; }
            cover("a rejected value");
            format!("{other}:{x}")
        }
        _ => { assume(false); return; }
    };
    let r = T::parse(&format!("{start}{line}{after}"), v);
    match r {
        Err(e) => { cover("refused"); ensure("the error is on the first line at fault", e.line_index() == start.matches('\n').count()) }
        Ok(_) => ensure("a line at fault is an error", false),
    }
}
/// every key once, in the order of the section or the opposite one; any key again is an error
fn all_keys<T: Section>() {
    let v = any_version();
    let n = T::KEYS.len();
    let reverse = any_bool("reverse");
    let again = index("repeated key", n);
    let mut want = T::empty();
    let mut text = String::new();
    let mut i = 0;
    while i < n {
        let k = T::KEYS[if reverse { n - 1 - i } else { i }];
        if want.line(k, sample(k), v) != Some(true) { ensure("the value is valid", false); return; }
        if i > 0 { text.push('\n'); }
        text.push_str(k);
        text.push(':');
        text.push_str(sample(k));
        i += 1;
    }
    cover("all keys");
    match T::parse(&text, v) { Ok(Some(g)) => ensure("each line sets the field of its key and no other", g == want), _ => ensure("every key once is accepted", false) }
    let k = T::KEYS[again];
    match T::parse(&format!("{text}\n{k}:{}", sample(k)), v) { Err(e) => ensure("a repeated key is an error of its line", e.line_index() == n), Ok(_) => ensure("a repeated key is an error", false) }
}
fn nothing<T: Section>() {
    let v = any_version();
    let ws = any_str_of("blank text", " \t\r\n");
    cover("blank");
    match T::parse(ws, v) {
        Ok(Some(g)) => {
            ensure("a blank section has no field", g == T::empty());
            ensure("and prints as nothing", match g.print(v) { Some(t) => t.is_empty(), None => false });
        }
        _ => ensure("a blank section is accepted", false),
    }
}
impl Codec for general::EditorBookmarks {
    const UNTIL: u8 = 5;
    const PRE_NOT: &'static str = "\r\n";
    const PRINTED_NOT: &'static str = " \t\r\n:";
    const NONEMPTY: bool = false;
    const LIST: Option<char> = Some(',');
    const EXAMPLES: &'static [&'static str] = &["1,2", "-7", ""];
}
impl Codec for editor::Bookmarks {
    const PRE_NOT: &'static str = "\r\n";
    const PRINTED_NOT: &'static str = " \t\r\n:";
    const NONEMPTY: bool = false;
    const LIST: Option<char> = Some(',');
    const EXAMPLES: &'static [&'static str] = &["1,2", "-7", ""];
}
impl Codec for metadata::Tags {
    const PRE_NOT: &'static str = "\r\n";
    const PRE_FIRST_NOT: &'static str = " \t";
    const PRINTED_NOT: &'static str = "\r\n";
    const FIRST_NOT: &'static str = " \t";
    const NONEMPTY: bool = false;
    const TOTAL: bool = true;
    const LIST: Option<char> = Some(' ');
    const EXAMPLES: &'static [&'static str] = &["a b", "c", ""];
}
crate::specs! {
    fn p11_editor_bookmarks() { codec_proof::<general::EditorBookmarks>() }
    fn p11_bookmarks() { codec_proof::<editor::Bookmarks>() }
    fn p11_tags() { codec_proof::<metadata::Tags>() }
    fn p11_general_line() { one_line::<General>() }
    fn p11_editor_line() { one_line::<Editor>() }
    fn p11_metadata_line() { one_line::<Metadata>() }
    fn p11_difficulty_line() { one_line::<Difficulty>() }
    fn p11_general_two_a() { two_lines::<General>(0, 7) }
    fn p11_general_two_b() { two_lines::<General>(7, 14) }
    fn p11_general_two_c() { two_lines::<General>(14, 21) }
    fn p11_editor_two() { two_lines::<Editor>(0, 6) }
    fn p11_metadata_two() { two_lines::<Metadata>(0, 10) }
    fn p11_difficulty_two() { two_lines::<Difficulty>(0, 6) }
    fn p11_general_no_key() { no_key::<General>() }
    fn p11_editor_no_key() { no_key::<Editor>() }
    fn p11_metadata_no_key() { no_key::<Metadata>() }
    fn p11_difficulty_no_key() { no_key::<Difficulty>() }
    fn p11_general_print_a() { print_two::<General>(0, 4) }
    fn p11_general_print_b() { print_two::<General>(4, 9) }
    fn p11_general_print_c() { print_two::<General>(9, 21) }
    fn p11_editor_print() { print_two::<Editor>(0, 6) }
    fn p11_metadata_print() { print_two::<Metadata>(0, 10) }
    fn p11_difficulty_print() { print_two::<Difficulty>(0, 6) }
    fn p11_general_all() {
        General::lists();
        let n = any_i32("number");
        let t = n.to_string();
        let d = value("decimal");
        let s = value("text");
        let b = if any_bool("switch") { "1" } else { "0" };
        print_all::<General>(&[s, &t, s, &t, "2", "Soft", d, "0", b, b, b, b, "Above", s, b, &t, b, b, b, "1,2", d], |k, v| (k == "AudioHash" && v > 13) || (k == "Countdown" && v < 5) || (k == "SampleSet" && v < 4) || (k == "OverlayPosition" && v < 14) || ((k == "EditorBookmarks" || k == "EditorDistanceSpacing") && v > 5))
    }
    fn p11_editor_all() {
        Editor::lists();
        let n = any_i32("number");
        let t = n.to_string();
        let d = value("decimal");
        print_all::<Editor>(&["1,2", d, d, &t, d, &t], |k, v| k == "CurrentTime" && v != 10)
    }
    fn p11_metadata_all() {
        Metadata::lists();
        let n = any_i32("number");
        let t = n.to_string();
        let s = value("text");
        print_all::<Metadata>(&[s, s, s, s, s, s, s, s, &t, &t], |_, _| false)
    }
    fn p11_difficulty_all() {
        let (a, b) = (value("decimal"), value("other decimal"));
        print_all::<Difficulty>(&[a, b, a, b, a, b], |_, _| false)
    }
    fn p11_general_blank() { nothing::<General>() }
    fn p11_editor_blank() { nothing::<Editor>() }
    fn p11_metadata_blank() { nothing::<Metadata>() }
    fn p11_difficulty_blank() { nothing::<Difficulty>() }
    fn p11_general_keys() { all_keys::<General>() }
    fn p11_editor_keys() { all_keys::<Editor>() }
    fn p11_metadata_keys() { all_keys::<Metadata>() }
    fn p11_difficulty_keys() { all_keys::<Difficulty>() }
    fn p04_general() { error_line::<General>() }
    fn p04_editor() { error_line::<Editor>() }
    fn p04_metadata() { error_line::<Metadata>() }
    fn p04_difficulty() { error_line::<Difficulty>() }
}
