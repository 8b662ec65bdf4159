//! which version has which value
use crate::ghost::*;
use crate::specs::codecs::any_version;
use osu_file_parser::osu_file::colours::Colour;
use osu_file_parser::osu_file::events::{ColourTransformation, Event, Events};
use osu_file_parser::osu_file::hitobjects::HitSample;
use osu_file_parser::osu_file::osb::Osb;
use osu_file_parser::osu_file::timingpoints::{Effects, SampleIndex, SampleSet, TimingPoint, Volume};
use osu_file_parser::osu_file::*;
use rust_decimal::Decimal as Dec;

/// in a version without the value every text is read as nothing; in one with it only as something
fn read_in<T: VersionedFromStr>(has: impl Fn(u8) -> bool) {
    let v = any_version();
    let s = any_str_not("text", "\r\n");
    match T::from_str(s, v) {
        Ok(x) => { cover("read"); ensure("read as nothing exactly in the versions without it", x.is_some() == has(v)) }
        Err(_) => { cover("refused"); ensure("no error in a version without it", has(v)) }
    }
}
/// a value that some version has is printed in exactly the versions that have it
fn printed_in<T: VersionedFromStr + VersionedToString>(text: &str, has: impl Fn(u8) -> bool) {
    let (w, v) = (any_version(), any_u8("printed version"));
    assume(v >= 3 && v <= 14);
    if let Ok(Some(x)) = T::from_str(text, w) { cover("a value"); ensure("printed in exactly the versions that have it", x.to_string(v).is_some() == has(v)) }
}
fn default_in<T: VersionedDefault>(has: impl Fn(u8) -> bool) {
    let v = any_version();
    cover("default");
    ensure("a default in exactly the versions that have it", T::default(v).is_some() == has(v));
}
fn text() -> &'static str { any_str_not("value", "\r\n") }
crate::specs! {
    fn p05_mode() {
        let v = any_version();
        let n = any_u8("mode");
        match general::Mode::from_str(&format!("{n}"), v) {
            Ok(m) => {
                cover("read");
                ensure("modes are 0 to 3", n < 4);
                // osu! always, taiko from 5, catch from 7, mania from 10
                let from = if n == 0 { 3 } else if n == 1 { 5 } else if n == 2 { 7 } else { 10 };
                ensure("a mode exists from its version on", m.is_some() == (v >= from));
            }
            Err(_) => { cover("refused"); ensure("modes are 0 to 3", n > 3) }
        }
        default_in::<general::Mode>(|_| true);
        printed_in::<general::Mode>(text(), |_| true);
    }
    fn p05_countdown() { read_in::<general::Countdown>(|v| v >= 5); default_in::<general::Countdown>(|v| v >= 5); printed_in::<general::Countdown>(text(), |v| v >= 5); }
    fn p05_countdown_number() {
        let v = any_version();
        let n = any_usize("number");
        match <general::Countdown as VersionedFromRepr>::from_repr(n, v) {
            Ok(x) => { cover("read"); ensure("countdowns exist from version 5 on", x.is_some() == (v >= 5)); ensure("0 to 3", n < 4 || v < 5); }
            Err(_) => { cover("refused"); ensure("0 to 3", n > 3 && v >= 5); }
        }
    }
    fn p05_sample_set() { read_in::<general::SampleSet>(|v| v >= 4); default_in::<general::SampleSet>(|v| v >= 4); printed_in::<general::SampleSet>(text(), |v| v >= 4); }
    fn p05_overlay_position() { read_in::<general::OverlayPosition>(|v| v >= 14); default_in::<general::OverlayPosition>(|v| v >= 14); printed_in::<general::OverlayPosition>(text(), |v| v >= 14); }
    fn p05_audio_hash() { default_in::<general::AudioHash>(|v| v <= 13); printed_in::<general::AudioHash>(text(), |v| v <= 13); }
    fn p05_editor_bookmarks() { let t = text(); at_most(t, ',', 2); bounded("lists have at most three items"); printed_in::<general::EditorBookmarks>(t, |v| v <= 5); }
    fn p05_editor_distance_spacing() { printed_in::<general::EditorDistanceSpacing>(text(), |v| v <= 5); }
    fn p05_current_time() { printed_in::<editor::CurrentTime>(text(), |v| v == 10); }
    fn p05_colours() {
        let v = any_version();
        let c = any_str_not("line", "\r\n");
        match Colours::from_str(c, v) {
            Ok(x) => { cover("read"); ensure("colours exist from version 5 on", x.is_some() == (v >= 5)); }
            Err(_) => { cover("refused"); ensure("no error in a version without colours", v >= 5) }
        }
        default_in::<Colours>(|v| v >= 5);
        let w = any_u8("printed version");
        assume(w >= 3 && w <= 14);
        if let Ok(Some(x)) = Colours::from_str(c, v) { ensure("colours are written from version 5 on", x.to_string(w).is_some() == (w >= 5)); }
        if let Ok(Some(x)) = Colour::from_str(c, v) { ensure("a colour is written", x.to_string(w).is_some()); }
    }
    fn p05_colour_transformation() {
        let (w, v) = (any_version(), any_u8("printed version"));
        assume(v >= 3 && v <= 14);
        if let Ok(Some(x)) = ColourTransformation::from_str(text(), w) {
            assume(x.start_time > i32::MIN + 24);
            cover("a value");
            ensure("printed in exactly the versions that have it", x.to_string(v).is_some() == (v <= 13));
        }
    }
    fn p05_events() {
        let (w, v) = (any_version(), any_u8("printed version"));
        assume(v >= 3 && v <= 14);
        let p = any_str_not("comment", "\r\n");
        let n = any_u8("red");
        match Events::from_str(&format!("3,100,{n},2,3\n//{p}"), w) {
            Ok(Some(e)) => {
                cover("read");
                let shown = match &e.0[0] { Event::ColourTransformation(c) => c.to_string(v), _ => None };
                let want = match shown { Some(t) => format!("{t}\n//{p}"), None => format!("//{p}") };
                ensure("a colour transformation is written up to version 13", e.to_string(v) == Some(want));
            }
            _ => ensure("accepted", false),
        }
    }
    fn p05_storyboard() {
        let v = any_u8("version");
        let s = any_str_not("comment", "\r\n");
        match Osb::from_str(&format!("[Events]\n//{s}"), v) {
            Ok(o) => { cover("read"); ensure("storyboard files exist from version 14 on", o.is_some() == (v >= 14)); }
            Err(_) => ensure("accepted", false),
        }
        ensure("no error in a version without storyboard files", v >= 14 || matches!(Osb::from_str(s, v), Ok(None)));
        let o = Osb { variables: None, events: None };
        ensure("storyboard files are written from version 14 on", o.to_string(v).is_some() == (v >= 14));
    }
    // an attached storyboard is not part of the beatmap's own text
    fn p05_beatmap_without_storyboard() {
        let v = any_version();
        let s = any_str_not("comment", "\r\n");
        let mut f = OsuFile::new(v);
        if f.append_osb(&format!("[Events]\n//{s}")).is_ok() { cover("attached"); ensure("attached from version 14 on", f.osb.is_some() == (v >= 14)); ensure("the beatmap's text", f.to_string() == OsuFile::new(v).to_string()); ensure("written from version 14 on", f.osb_to_string().is_some() == (v >= 14)); }
    }
    fn p05_hit_sample() {
        let (w, v) = (any_version(), any_u8("printed version"));
        assume(v >= 3 && v <= 14);
        let s = text();
        if let Ok(Some(h)) = HitSample::from_str(s, w) {
            cover("a value");
            let (a, b, c) = (h.normal_set.to_string(v).unwrap(), h.addition_set.to_string(v).unwrap(), h.index.to_string(v).unwrap());
            let want = if v <= 9 { None } else if v <= 11 { Some(format!("{a}:{b}:{c}")) } else { Some(format!("{a}:{b}:{c}:{}:{}", h.volume.volume().unwrap_or(0), h.filename)) };
            ensure("the parts of a hit sample that the version has", h.to_string(v) == want);
        }
    }
    fn p05_timing_point() {
        use_codec::<SampleSet>();
        use_codec::<SampleIndex>();
        use_codec::<Effects>();
        let (w, v) = (any_version(), any_u8("printed version"));
        assume(v >= 3 && v <= 14);
        let (ss, si, ef) = (any_str_not("sample set", ",\r\n"), any_str_not("sample index", ",\r\n"), any_str_not("effects", ",\r\n"));
        let (Ok(Some(set)), Ok(Some(index)), Ok(Some(effects))) = (SampleSet::from_str(ss, w), SampleIndex::from_str(si, w), Effects::from_str(ef, w)) else { return };
        let n = any_i32("volume");
        let Some(volume) = Volume::new(n, v) else { return };
        let (t, m) = (any_i32("time"), any_i32("meter"));
        let b = any_dec("beat length");
        let p = TimingPoint::new_uninherited(t, Decimal::new(b), m, set, index, volume, effects);
        cover("a value");
        let d = if v <= 4 { Dec::from(t) - Dec::from(24) } else { Dec::from(t) };
        let time = format!("{d},{b}");
        let sets = format!("{time},{m},{},{}", set.to_string(v).unwrap(), index.to_string(v).unwrap());
        let want = match v {
            3 => time,
            4 => if n == 100 { sets } else { format!("{sets},{n}") },
            _ => format!("{sets},{n},1,{}", effects.to_string(v).unwrap()),
        };
        ensure("the fields of a timing point that the version has", p.to_string(v) == Some(want));
    }
    // fields beyond those of the version are not read
    fn p05_timing_point_read() {
        let v = any_version();
        let s = text();
        if let Ok(Some(t)) = TimingPoint::from_str(s, v) {
            cover("a value");
            ensure("no effects before version 5", v >= 5 || t.effects().is_none());
            ensure("no meter, sample set, sample index or volume before version 4", v >= 4 || (t.meter() == 4 && t.volume().volume() == 100 && t.sample_set() == SampleSet::Normal));
        }
    }
}
