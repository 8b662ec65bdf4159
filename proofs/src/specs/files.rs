//! whole files
use crate::ghost::*;
use crate::specs::codecs::any_version;
use osu_file_parser::osu_file::types::Error;
use osu_file_parser::osu_file::*;

pub const NAMES: [&str; 8] = ["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"];
pub fn use_sections() {
    use_pure::<General>(0, &["Mode: 0"]);
    use_pure::<Editor>(0, &["GridSize: 4"]);
    use_pure::<Metadata>(0, &["Title:a"]);
    use_pure::<Difficulty>(0, &["CircleSize:4"]);
    use_pure::<Events>(0, &["0,0,\"a\",0,0"]);
    use_pure::<TimingPoints>(0, &[""]);
    use_pure::<Colours>(5, &["Combo1 : 1,2,3"]);
    use_pure::<HitObjects>(0, &["1,2,3,1,0,0:0:0:0:"]);
}
/// what the section of this name and text is on its own: put into the file, or the line of the error
pub fn section_alone(f: &mut OsuFile, name: &str, text: &str, v: u8) -> Result<(), usize> {
    macro_rules! put { ($f:ident, $t:ty) => { match <$t>::from_str(text, v) { Ok(x) => { f.$f = x; Ok(()) } Err(e) => Err(e.line_index()) } } }
    match name {
        "General" => put!(general, General),
        "Editor" => put!(editor, Editor),
        "Metadata" => put!(metadata, Metadata),
        "Difficulty" => put!(difficulty, Difficulty),
        "Events" => put!(events, Events),
        "TimingPoints" => put!(timing_points, TimingPoints),
        "Colours" => put!(colours, Colours),
        "HitObjects" => put!(hitobjects, HitObjects),
        _ => { ensure("a section's name", false); Ok(()) }
    }
}
/// the text of a section as it may stand in a file
fn body(label: &str) -> &'static str {
    let s = any_str_not(label, "\r");
    if s.is_empty() { cover("an empty section"); } else { assume(!first_in(s, " \t\n[")); }
    assume(!s.contains("\n["));
    s
}
fn name(label: &str) -> &'static str {
    let i = any_u8(label) as usize;
    assume(i < 8);
    let mut k = 0;
    while k < 8 { if i == k { return NAMES[k]; } k += 1; }
    NAMES[0]
}
/// what stands between a header and the text of its section
fn gap(label: &str) -> &'static str {
    let g = any_str_of(label, " \t\n");
    if g.is_empty() { cover("no gap"); } else { assume(first_in(g, "\n")); }
    g
}
/// the whole text of a file of version `v`
fn file(v: u8, sections: &str) -> String { format!("osu file format v{v}\n\n{sections}") }
fn check(alone: Result<(), usize>, want: &OsuFile, r: Result<OsuFile, Error<ParseError>>) {
    match (alone, r) {
        (Ok(()), Ok(f)) => { cover("accepted"); ensure("the file has exactly its sections' own values", f == *want) }
        (Ok(()), Err(_)) => ensure("a file of valid sections is accepted", false),
        (Err(_), r) => { cover("refused"); ensure("an invalid section makes the file an error", r.is_err()) }
    }
}
/// errors are on the line of the file on which the section's own error is
fn check_line(before: &str, alone: usize, r: Result<OsuFile, Error<ParseError>>) {
    match r {
        Ok(_) => ensure("an invalid section makes the file an error", false),
        Err(e) => { cover("refused"); ensure("the error is on its line in the file", e.line_index() == before.matches("\n").count() + alone) }
    }
}
crate::specs! {
    fn p04_one_section() {
        use_sections();
        let v = any_version();
        let n = name("section");
        let ws = gap("after the header");
        let c = body("content");
        assume(!ws.is_empty() || c.is_empty());
        assume(!last_in(c, "\n"));
        let lead = any_str_of("before the version", " \t\n");
        let blank = any_u8("blank lines before the section");
        assume(blank < 3);
        bounded("at most two blank lines before the section");
        let blank = if blank == 0 { "" } else if blank == 1 { "\n" } else { "\n\n" };
        let before = format!("{lead}osu file format v{v}\n{blank}[{n}]{ws}");
        let r = format!("{before}{c}").parse::<OsuFile>();
        let alone = section_alone(&mut OsuFile::new(v), n, c, v);
        // p04_empty_sections
        if c.is_empty() { assume(alone.is_ok()); }
        if let Err(i) = alone { check_line(&before, i, r); }
    }
    fn p04_two_sections() {
        use_sections();
        let v = any_version();
        let (n, m) = (name("first section"), name("second section"));
        let (ws, ws2) = (gap("after the first header"), gap("after the second header"));
        let (c, d) = (body("first content"), body("second content"));
        assume(!ws.is_empty() || c.is_empty());
        assume(!ws2.is_empty() || d.is_empty());
        assume(!last_in(c, "\n"));
        assume(!last_in(d, "\n"));
        let before = file(v, &format!("[{n}]{ws}"));
        let before2 = format!("{before}{c}\n[{m}]{ws2}");
        let r = format!("{before2}{d}").parse::<OsuFile>();
        let mut want = OsuFile::new(v);
        let first = section_alone(&mut want, n, c, v);
        // p04_empty_sections
        if c.is_empty() { assume(first.is_ok()); }
        match first {
            Err(i) => check_line(&before, i, r),
            Ok(()) if n == m => check_line(&format!("{before}{c}\n"), 0, r),
            Ok(()) => {
                let second = section_alone(&mut want, m, d, v);
                if d.is_empty() { assume(second.is_ok()); }
                if let Err(i) = second { check_line(&before2, i, r); }
            }
        }
    }
    // known: known-findings.md
    fn p04_after_blank_line() {
        use_sections();
        let v = any_version();
        let c = any_str_not("first content", "\r[");
        if c.is_empty() { assume(false); }
        assume(!first_in(c, " \t\n"));
        let d = body("second content");
        assume(!d.is_empty());
        assume(!last_in(d, "\n"));
        let before = file(v, &format!("[Editor]\n{c}\n\n[Metadata]\n"));
        let r = format!("{before}{d}").parse::<OsuFile>();
        let mut want = OsuFile::new(v);
        assume(section_alone(&mut want, "Editor", &format!("{c}\n"), v).is_ok());
        if let (Err(i), Err(e)) = (section_alone(&mut want, "Metadata", d, v), r) {
            cover("refused");
            let line = before.matches("\n").count() + i;
            ensure("the error is on its line in the file after a blank line", e.line_index() == line);
            ensure("the error is at most one line off", e.line_index() == line || e.line_index() + 1 == line);
        }
    }
    fn p04_empty_sections() {
        let v = any_version();
        let mut f = OsuFile::new(v);
        let mut k = 0;
        while k < 8 {
            let r = section_alone(&mut f, NAMES[k], "", v);
            cover(NAMES[k]);
            ensure("an empty section is no error", r.is_ok());
            k += 1;
        }
    }
    fn p12_one_section() {
        use_sections();
        let v = any_version();
        let n = name("section");
        let ws = gap("after the header");
        let c = body("content");
        assume(!ws.is_empty() || c.is_empty());
        assume(!last_in(c, "\n"));
        let mut want = OsuFile::new(v);
        let alone = section_alone(&mut want, n, c, v);
        check(alone, &want, file(v, &format!("[{n}]{ws}{c}")).parse::<OsuFile>());
    }
    fn p12_two_sections() {
        use_sections();
        let v = any_version();
        let (n, m) = (name("first section"), name("second section"));
        let (ws, ws2) = (gap("after the first header"), gap("after the second header"));
        let (c, d) = (body("first content"), body("second content"));
        assume(!ws.is_empty() || c.is_empty());
        assume(!ws2.is_empty() || d.is_empty());
        assume(!last_in(d, "\n"));
        let r = file(v, &format!("[{n}]{ws}{c}\n[{m}]{ws2}{d}")).parse::<OsuFile>();
        let mut want = OsuFile::new(v);
        if n == m { cover("twice the same section"); ensure("a second section of the same name is an error", r.is_err()); return; }
        let mut alone = section_alone(&mut want, n, c, v);
        if alone.is_ok() { alone = section_alone(&mut want, m, d, v); }
        check(alone, &want, r);
    }
    // every section once, in the order of printing and in the opposite order
    fn p12_all_sections() {
        use_sections();
        let v = any_version();
        let reverse = any_bool("reverse");
        let mut want = OsuFile::new(v);
        let mut text = String::new();
        let mut k = 0;
        while k < 8 {
            let n = NAMES[if reverse { 7 - k } else { k }];
            let c = body(n);
            assume(!c.is_empty());
            assume(!last_in(c, "\n"));
            assume(section_alone(&mut want, n, c, v).is_ok());
            text = format!("{text}[{n}]\n{c}\n");
            k += 1;
        }
        check(Ok(()), &want, file(v, &text).parse::<OsuFile>());
    }
    // all eight, then any of them again
    fn p12_repeated_section() {
        use_sections();
        let v = any_version();
        let again = name("repeated section");
        let mut text = String::new();
        let mut k = 0;
        while k < 8 {
            text = format!("{text}[{}]\n{}\n", NAMES[k], if k == 0 { body("first content") } else { "" });
            k += 1;
        }
        let r = file(v, &format!("{text}[{again}]\n{}", body("last content"))).parse::<OsuFile>();
        cover("repeated");
        ensure("a second section of the same name is an error", r.is_err());
    }
    // the first name again after another section
    fn p12_repeated_apart() {
        use_sections();
        let v = any_version();
        let (n, m) = (name("first section"), name("second section"));
        assume(n != m);
        let (c, d) = (body("first content"), body("second content"));
        assume(!c.is_empty() && !d.is_empty());
        let mut f = OsuFile::new(v);
        assume(!last_in(c, "\n") && !last_in(d, "\n"));
        assume(section_alone(&mut f, n, c, v).is_ok() && section_alone(&mut f, m, d, v).is_ok());
        let before = file(v, &format!("[{n}]\n{c}\n[{m}]\n{d}\n"));
        let r = format!("{before}[{n}]\n{}", body("last content")).parse::<OsuFile>();
        match r { Err(e) => { cover("repeated"); ensure("a repeated section is an error of its header", e.line_index() == before.matches("\n").count()) } Ok(_) => ensure("a second section of the same name is an error", false) }
    }
    // the printed file, for any combination of sections
    fn p12_print() {
        use_sections();
        let (v, v2) = (any_version(), any_version());
        let mut f = OsuFile::new(v);
        let mut k = 0;
        while k < 8 {
            if any_bool(NAMES[k]) { let c = any_str_not("content", "\r"); assume(section_alone(&mut f, NAMES[k], c, v).is_ok()); }
            k += 1;
        }
        f.version = v2;
        let mut want = String::new();
        macro_rules! one { ($f:ident, $n:literal) => { if let Some(x) = &f.$f { if let Some(t) = x.to_string(v2) { cover($n); want = if want.is_empty() { format!("[{}]\n{t}", $n) } else { format!("{want}\n\n[{}]\n{t}", $n) }; } } } }
        one!(general, "General");
        one!(editor, "Editor");
        one!(metadata, "Metadata");
        one!(difficulty, "Difficulty");
        one!(events, "Events");
        one!(timing_points, "TimingPoints");
        one!(colours, "Colours");
        one!(hitobjects, "HitObjects");
        ensure("the file is its header and its sections in order", f.to_string() == file(v2, &want));
    }
    fn p12_no_sections() {
        let v = any_version();
        let rest = any_str_of("rest", " \t\n\r");
        at_most(rest, '\n', 3);
        if rest.is_empty() { cover("nothing"); } else { assume(!first_in(rest, " \t")); }
        match format!("osu file format v{v}{rest}").parse::<OsuFile>() {
            Ok(f) => { cover("accepted"); ensure("nothing but the version", f == OsuFile::new(v)) }
            Err(_) => ensure("a file without sections is accepted", false),
        }
    }
    fn p12_unknown_section() {
        use_sections();
        let v = any_version();
        let n = any_str_not("name", "]\n\r");
        let mut k = 0;
        while k < 8 { assume(n != NAMES[k]); k += 1; }
        cover("unknown");
        let c = body("content");
        assume(!c.is_empty());
        match file(v, &format!("[{n}]\n{c}")).parse::<OsuFile>() {
            Err(e) => { ensure("unknown section", matches!(e.error(), ParseError::UnknownSection)); ensure("on the line of the header", e.line_index() == 2) }
            Ok(_) => ensure("an unknown section is an error", false),
        }
    }
    fn p12_version_line() {
        let t = any_str_not("version", "\r\n");
        let ws = any_str_of("white space", " \t\n\r");
        let bom = any_bool("byte order mark");
        let r = format!("{ws}{}osu file format v{t}\n", if bom { "\u{feff}" } else { "" }).parse::<OsuFile>();
        match t.parse::<u8>() {
            Ok(v) if v >= 3 && v <= 14 => { cover("version"); ensure("the version is read", match r { Ok(f) => f == OsuFile::new(v), Err(_) => false }) }
            _ => match r {
                Ok(_) => ensure("other versions are errors", false),
                Err(e) => { cover("refused"); ensure("invalid version", matches!(e.error(), ParseError::InvalidFileVersion)); ensure("on the line of the version", e.line_index() == ws.matches("\n").count()) }
            }
        }
    }
    fn p12_no_version_line() {
        let t = any_str_not("text", "");
        if t.is_empty() { cover("empty"); } else { assume(!first_in(t, " \t\n\r\u{feff}")); }
        assume(!t.starts_with("osu file format v"));
        let ws = any_str_of("white space", " \t\n\r");
        match format!("{ws}{t}").parse::<OsuFile>() {
            Ok(_) => ensure("a file starts with its version", false),
            Err(e) => { cover("refused"); ensure("no version", matches!(e.error(), ParseError::FileVersionDefinedWrong)); ensure("on the first line of the text", e.line_index() == ws.matches("\n").count()) }
        }
    }
    // lines between the version and the first section
    fn p12_before_sections() {
        use_sections();
        bounded("two lines before the first section");
        let v = any_version();
        let (a, b) = (any_str_not("first line", "\r\n"), any_str_not("second line", "\r\n"));
        let c = body("content");
        assume(!c.is_empty());
        assume(!last_in(c, "\n"));
        let mut want = OsuFile::new(v);
        assume(section_alone(&mut want, "Editor", c, v).is_ok());
        let ignored = |t: &str| t.trim().is_empty() || t.trim().starts_with("//");
        let bracket = |t: &str| t.trim().starts_with('[') || t.trim().ends_with(']');
        assume(!bracket(a));
        assume(!bracket(b));
        let (ia, ib) = (ignored(a), ignored(b));
        match format!("osu file format v{v}\n{a}\n{b}\n[Editor]\n{c}").parse::<OsuFile>() {
            Ok(f) => { cover("accepted"); ensure("only blank lines and comments may stand before the sections", ia && ib); ensure("they change nothing", f == want) }
            Err(e) => {
                cover("refused");
                ensure("blank lines and comments may stand before the sections", !ia || !ib);
                ensure("unexpected line", matches!(e.error(), ParseError::UnexpectedLine));
                ensure("its line", e.line_index() == if ia { 2 } else { 1 });
            }
        }
    }
    fn p12_no_close() {
        use_sections();
        let v = any_version();
        let t = any_str_not("rest", "]\n\r");
        let first = any_bool("at the start");
        assume(section_alone(&mut OsuFile::new(v), "Editor", "", v).is_ok());
        let r = if first { file(v, &format!("[{t}")).parse::<OsuFile>() } else { file(v, &format!("[Editor]\n\n[{t}")).parse::<OsuFile>() };
        match r { Ok(_) => ensure("a header without closing bracket is an error", false), Err(e) => {
            cover("refused");
            // the section before it may be the error
            ensure("its line", e.line_index() == if first { 2 } else { 4 });
            ensure("no closing bracket", matches!(e.error(), ParseError::SectionNameNoCloseBracket(_)));
        } }
    }
    fn p12_crlf() {
        use_sections();
        bounded("five lines after the version");
        let v = any_version();
        let (a, b, c) = (any_str_not("a", "\r\n"), any_str_not("b", "\r\n"), any_str_not("c", "\r\n"));
        for x in [a, b, c] { if x.is_empty() { cover("an empty line"); } else { assume(!first_in(x, " \t[")); } }
        let x = format!("osu file format v{v}\r\n\r\n[Editor]\r\n{a}\r\n{b}\r\n[Events]\r\n{c}\r\n").parse::<OsuFile>();
        let y = format!("osu file format v{v}\n\n[Editor]\n{a}\n{b}\n[Events]\n{c}\n").parse::<OsuFile>();
        match (x, y) {
            (Ok(x), Ok(y)) => { cover("accepted"); ensure("line endings do not matter", x == y) }
            (Err(x), Err(y)) => { cover("refused"); ensure("the same line is wrong", x.line_index() == y.line_index()) }
            _ => ensure("line endings do not matter", false),
        }
    }
}
