//! sections that are lists of lines, of any length
use crate::ghost::*;
use crate::specs::codecs::any_version;
use osu_file_parser::osu_file::types::Error;
use osu_file_parser::osu_file::events::*;
use osu_file_parser::osu_file::*;

/// a section whose lines are parsed on their own, one element for each
pub trait List: Sized {
    type Line: VersionedFromStr + PartialEq + Clone;
    type E;
    fn parse(s: &str, v: u8) -> Result<Option<Self>, Error<Self::E>>;
    fn list(&mut self) -> &mut Vec<Self::Line>;
}
macro_rules! list {
    ($t:ty, $l:ty, $e:ty) => {
        impl List for $t {
            type Line = $l;
            type E = $e;
            fn parse(s: &str, v: u8) -> Result<Option<Self>, Error<$e>> { <$t as VersionedFromStr>::from_str(s, v) }
            fn list(&mut self) -> &mut Vec<$l> { &mut self.0 }
        }
    };
}
list!(HitObjects, hitobjects::HitObject, hitobjects::ParseError);
list!(TimingPoints, timingpoints::TimingPoint, timingpoints::ParseError);
list!(Colours, colours::Colour, colours::ParseError);
fn lines(s: &str) -> usize { s.matches('\n').count() }
/// one more line behind any number of lines: its element behind their elements, or its error
fn one_more<T: List>(from: u8) {
    use_line::<T::Line>(&["1"]);
    let v = any_version();
    assume(v >= from);
    let before = any_lines("lines", "", "");
    let line = any_str_not("line", "\n");
    assume(!last_in(line, "\r"));
    let ended = any_bool("line break");
    let text = if ended { format!("{before}{line}\n") } else { format!("{before}{line}") };
    let r = T::parse(&text, v);
    match (T::parse(before, v), r) {
        (Err(a), Err(b)) => { cover("refused before"); ensure("the first line at fault is that of the error", a.line_index() == b.line_index() && a.line_index() < lines(before)) }
        (Err(_), Ok(_)) => ensure("a line at fault is an error, whatever follows", false),
        (Ok(a), r) => {
            let mut want = match a { Some(mut a) => std::mem::take(a.list()), None => { ensure("the section exists", false); return } };
            if !line.trim().is_empty() {
                match T::Line::from_str(line, v) {
                    Ok(Some(x)) => { cover("one more"); want.push(x) }
                    Ok(None) => { ensure("the line exists", false); return }
                    Err(_) => { cover("refused"); ensure("the line at fault is that of the error", match r { Err(e) => e.line_index() == lines(before), Ok(_) => false }); return }
                }
            }
            match r { Ok(Some(mut b)) => { cover("accepted"); ensure("each line adds its element behind the others", same_list(b.list(), &want)) } _ => ensure("accepted lines make an accepted section", false) }
        }
    }
}
/// any number of events, then an event with or without a command, then possibly any number of events
fn events(kind: u8) {
    use_line::<Background>(&["0,0,a"]);
    use_line::<Video>(&["1,0,a"]);
    use_line::<Break>(&["2,0,1"]);
    use_line::<ColourTransformation>(&["3,0,1,2,3"]);
    use_line::<SpriteLegacy>(&["4,0,0,a"]);
    use_line::<AnimationLegacy>(&["6,0,0,a,1,1,1,0"]);
    use_line::<SampleLegacy>(&["5,0,0,a,1"]);
    use_line_errors::<storyboard::sprites::Object>(&["Sprite,Pass,Centre,a,1,1"]);
    use_line_errors::<AudioSample>(&["Sample,1,Pass,a,1"]);
    let v = any_version();
    let before = any_lines("lines", "", " _");
    let line = any_str_not("line", "\n");
    assume(!last_in(line, "\r") && !first_in(line, " _"));
    assume(match kind { 0 => first_in(line, "01"), 3 => first_in(line, "23"), 4 => first_in(line, "45"), 5 => first_in(line, "6789"), 1 => first_in(line, "SA"), _ => !first_in(line, "0123456789SA") });
    let r = Events::from_str(&format!("{before}{line}"), v);
    match (Events::from_str(before, v), r) {
        (Err(a), Err(b)) => { cover("refused before"); ensure("the first line at fault is that of the error", a.line_index() == b.line_index() && a.line_index() < lines(before)) }
        (Err(_), Ok(_)) => ensure("a line at fault is an error, whatever follows", false),
        (Ok(a), r) => {
            let mut want = match a { Some(a) => a.0, None => { ensure("the section exists", false); return } };
            match Events::from_str(line, v) {
                Ok(Some(x)) => {
                    for e in x.0 { cover("one more"); want.push(e) }
                    match r { Ok(Some(b)) => { cover("accepted"); ensure("each line adds its event behind the others", same_list(&b.0, &want)) } _ => ensure("accepted lines make an accepted section", false) }
                }
                Ok(None) => ensure("the line exists", false),
                Err(_) => { cover("refused"); ensure("the line at fault is that of the error", match r { Err(e) => e.line_index() == lines(before), Ok(_) => false }) }
            }
        }
    }
}
crate::specs! {
    fn p04_events_01() { events(0) }
    fn p04_events_23() { events(3) }
    fn p04_events_45() { events(4) }
    fn p04_events_6789() { events(5) }
    fn p04_events_names() { events(1) }
    fn p04_events_other() { events(2) }
    fn p04_hit_objects() { one_more::<HitObjects>(3) }
    fn p04_timing_points() { one_more::<TimingPoints>(3) }
    fn p04_colours() { one_more::<Colours>(5) }
}
