//! the documented texts and numbers of the enumerated values
use crate::ghost::*;
use crate::specs::codecs::*;
use osu_file_parser::osu_file::events::audio_sample;
use osu_file_parser::osu_file::events::normal_event::types as legacy;
use osu_file_parser::osu_file::events::storyboard::{sprites, types as sb};
use osu_file_parser::osu_file::*;
use osu_file_parser::osu_file as o;

/// the values of the table are exactly the accepted texts, both ways
pub fn names<T: VersionedFromStr + VersionedToString + PartialEq + Copy>(v: u8, table: &[(&'static str, T)]) {
    let s = any_str_not("text", "");
    let mut known = false;
    let r = T::from_str(s, v);
    for (n, x) in table.iter() {
        if s == *n {
            known = true;
            cover("documented name");
            ensure("a documented name is accepted as its value", match &r { Ok(Some(y)) => y == x, _ => false });
        }
        ensure("a value is printed as its documented name", match x.to_string(v) { Some(t) => t == *n, None => false });
    }
    if !known { ensure("an undocumented name is rejected", r.is_err()); }
}
/// the values of the table are exactly the accepted numbers, both ways
pub fn numbers<T: VersionedFromStr + VersionedToString + PartialEq + Copy>(v: u8, table: &[(usize, T)]) {
    let s = any_str_not("text", "");
    let r = T::from_str(s, v);
    match s.parse::<usize>() {
        Ok(n) => {
            let mut known = false;
            for (k, x) in table.iter() {
                if n == *k {
                    known = true;
                    cover("documented number");
                    ensure("a documented number is accepted as its value", match &r { Ok(Some(y)) => y == x, _ => false });
                }
            }
            if !known { ensure("an undocumented number is rejected", r.is_err()); }
        }
        Err(_) => ensure("a text that is no number is rejected", r.is_err()),
    }
    for (k, x) in table.iter() {
        ensure("a value is printed as its documented number", match x.to_string(v) { Some(t) => t == k.to_string(), None => false });
    }
}
pub fn reprs<T: VersionedFromRepr + PartialEq + Copy>(v: u8, table: &[T]) {
    let n = any_usize("number");
    match T::from_repr(n, v) {
        Ok(Some(x)) => { cover("accepted"); ensure("a documented number is its value", n < table.len() && x == table[n]) }
        Ok(None) => ensure("the type exists in this version", false),
        Err(_) => ensure("an undocumented number is rejected", n >= table.len()),
    }
}
fn version(lo: u8) -> u8 { let v = any_u8("version"); assume(v >= lo && v <= 14); v }
const ORIGINS: [(usize, sprites::OriginType, &str); 10] = {
    use sprites::OriginType::*;
    [(0, TopLeft, "TopLeft"), (1, Centre, "Centre"), (2, CentreLeft, "CentreLeft"), (3, TopRight, "TopRight"), (4, BottomCentre, "BottomCentre"),
     (5, TopCentre, "TopCentre"), (6, Custom, "Custom"), (7, CentreRight, "CentreRight"), (8, BottomLeft, "BottomLeft"), (9, BottomRight, "BottomRight")]
};
crate::specs! {
    // storyboard names
    fn p07_layer() { use sprites::Layer::*; names(version(3), &[("Background", Background), ("Fail", Fail), ("Pass", Pass), ("Foreground", Foreground), ("Overlay", Overlay)]) }
    fn p07_looptype() { use sprites::LoopType::*; names(version(3), &[("LoopForever", LoopForever), ("LoopOnce", LoopOnce)]) }
    fn p07_parameter() { use sb::Parameter::*; names(version(3), &[("H", ImageFlipHorizontal), ("V", ImageFlipVertical), ("A", UseAdditiveColourBlending)]) }
    fn p07_addition() { use sb::Addition::*; names(version(3), &[("Whistle", Whistle), ("Finish", Finish), ("Clap", Clap)]) }
    fn p07_sbsampleset() { use sb::SampleSet::*; names(version(3), &[("All", All), ("Normal", Normal), ("Soft", Soft), ("Drum", Drum)]) }
    fn p07_curvetype_names() { use hitobjects::CurveType::*; names(version(3), &[("B", Bezier), ("C", Centripetal), ("L", Linear), ("P", PerfectCircle)]) }
    fn p07_gsampleset_names() { use general::SampleSet::*; names(version(4), &[("Normal", Normal), ("Soft", Soft), ("Drum", Drum), ("None", None)]) }
    fn p07_overlay_names() { use general::OverlayPosition::*; names(version(14), &[("NoChange", NoChange), ("Below", Below), ("Above", Above)]) }
    // numbers
    fn p07_origin_legacy() { use legacy::OriginTypeLegacy::*; numbers(version(3), &[(0, TopLeft), (1, Centre), (2, CentreLeft), (3, TopRight), (4, BottomCentre), (5, TopCentre), (6, Custom), (7, CentreRight), (8, BottomLeft), (9, BottomRight)]) }
    fn p07_origin_legacy_repr() { use legacy::OriginTypeLegacy::*; reprs(version(3), &[TopLeft, Centre, CentreLeft, TopRight, BottomCentre, TopCentre, Custom, CentreRight, BottomLeft, BottomRight]) }
    fn p07_layer_legacy() { use legacy::LayerLegacy::*; numbers(version(3), &[(0, Background), (1, Fail), (2, Pass), (3, Foreground), (4, Overlay), (5, Video)]) }
    fn p07_layer_legacy_repr() { use legacy::LayerLegacy::*; reprs(version(3), &[Background, Fail, Pass, Foreground, Overlay, Video]) }
    fn p07_audio_layer() {
        use audio_sample::Layer::*;
        let v = version(3);
        reprs(v, &[Background, Fail, Pass, Foreground]);
        ensure("layer numbers", Background as usize == 0 && Fail as usize == 1 && Pass as usize == 2 && Foreground as usize == 3);
    }
    fn p07_mode_numbers() { use general::Mode::*; numbers(version(10), &[(0, Osu), (1, Taiko), (2, Catch), (3, Mania)]) }
    fn p07_countdown_numbers() { use general::Countdown::*; numbers(version(5), &[(0, NoCountdown), (1, Normal), (2, Half), (3, Double)]) }
    fn p07_countdown_repr() { use general::Countdown::*; reprs(version(5), &[NoCountdown, Normal, Half, Double]) }
    // numbers with a rest
    fn p07_hsampleset_numbers() {
        use hitobjects::SampleSet::*;
        let v = version(3);
        let n = any_usize("number");
        let expected = match n { 0 => NoCustomSampleSet, 1 => NormalSet, 2 => SoftSet, 3 => DrumSet, n => Other(n) };
        cover("number");
        ensure("number read as its sample set", match hitobjects::SampleSet::from_str(&n.to_string(), v) { Ok(Some(x)) => x == expected, _ => false });
        ensure("sample set printed as its number", match expected.to_string(v) { Some(t) => t == n.to_string(), None => false });
    }
    fn p07_tsampleset_numbers() {
        use timingpoints::SampleSet::*;
        let v = version(3);
        let n = any_i32("number");
        let expected = match n { 0 => BeatmapDefault, 1 => Normal, 2 => Soft, 3 => Drum, n => Other(n) };
        cover("number");
        ensure("number read as its sample set", match timingpoints::SampleSet::from_str(&n.to_string(), v) { Ok(Some(x)) => x == expected, _ => false });
        ensure("sample set printed as its number", match expected.to_string(v) { Some(t) => t == n.to_string(), None => false });
    }
    fn p07_easing() {
        use sb::Easing::*;
        let v = version(3);
        let n = any_i32("number");
        let table = [Linear, EasingOut, EasingIn, QuadIn, QuadOut, QuadInOut, CubicIn, CubicOut, CubicInOut, QuartIn, QuartOut, QuartInOut, QuintIn, QuintOut, QuintInOut, SineIn, SineOut, SineInOut,
            ExpoIn, ExpoOut, ExpoInOut, CircIn, CircOut, CircInOut, ElasticIn, ElasticOut, ElasticHalfOut, ElasticQuarterOut, ElasticInOut, BackIn, BackOut, BackInOut, BounceIn, BounceOut, BounceInOut];
        let e = match <sb::Easing as VersionedFrom<i32>>::from(n, v) { Some(e) => e, None => { ensure("every number is an easing", false); return; } };
        cover("number");
        let known = n >= 0 && n < 35;
        if known { cover("documented"); ensure("a documented number is its easing", e == table[n as usize]); } else { ensure("other numbers are kept", e == Other(n)); }
        ensure("the easing is written as its number", <i32 as VersionedFrom<sb::Easing>>::from(e, v) == Some(n));
        ensure("the easing is printed as its number", match e.to_string(v) { Some(t) => t == n.to_string(), None => false });
    }
    fn p07_origin() {
        let v = version(3);
        let s = any_str_not("text", "");
        let r = sprites::Origin::from_str(s, v);
        let mut name = false;
        for (k, t, n) in ORIGINS.iter() {
            if s == *n {
                name = true;
                cover("name");
                ensure("a documented name is accepted as its origin", match &r { Ok(Some(x)) => !x.shorthand && x.type_ == either::Either::Left(*t), _ => false });
            }
            let short = sprites::Origin::from(*t);
            ensure("an origin is printed as its number", match short.to_string(v) { Some(t) => t == k.to_string(), None => false });
            let mut long = short;
            long.shorthand = false;
            ensure("an origin is printed as its name", match long.to_string(v) { Some(t) => t == *n, None => false });
        }
        if !name {
            match s.parse::<i32>() {
                Ok(n) => {
                    cover("number");
                    let e = if n >= 0 && n < 10 { either::Either::Left(ORIGINS[n as usize].1) } else { either::Either::Right(n) };
                    ensure("a number is accepted as its origin", match &r { Ok(Some(x)) => x.shorthand && x.type_ == e, _ => false });
                }
                Err(_) => ensure("another text is rejected", r.is_err()),
            }
        }
    }
    fn p07_origin_text() { round_trip::<sprites::Origin>(any_str_not("text", ""), version(3)) }
    fn p07_audio_volume() {
        let v = version(3);
        let s = any_str_not("text", "");
        let r = audio_sample::Volume::from_str(s, v);
        match s.parse::<u8>() {
            Ok(n) if n <= 100 => {
                cover("accepted");
                ensure("a volume up to 100 is accepted", match &r { Ok(Some(x)) => x.get() == n && match x.to_string(v) { Some(t) => t == n.to_string(), None => false }, _ => false });
            }
            _ => ensure("other volumes are rejected", r.is_err()),
        }
    }
    fn p07_trigger() {
        let v = version(3);
        let hs = any_bool("hit sound");
        let (a, b, c) = (any_u8("sample set"), any_u8("additions sample set"), any_u8("addition"));
        assume(a <= 4 && b <= 4 && c <= 3);
        let set = |k: u8| match k { 1 => Some(sb::SampleSet::All), 2 => Some(sb::SampleSet::Normal), 3 => Some(sb::SampleSet::Soft), 4 => Some(sb::SampleSet::Drum), _ => None };
        // an additions sample set alone reads as the sample set
        assume(a > 0 || b == 0);
        let t = if hs {
            sb::TriggerType::HitSound { sample_set: set(a), additions_sample_set: set(b), addition: match c { 1 => Some(sb::Addition::Whistle), 2 => Some(sb::Addition::Finish), 3 => Some(sb::Addition::Clap), _ => None }, custom_sample_set: None }
        } else if a == 0 { sb::TriggerType::Passing } else { sb::TriggerType::Failing };
        let name = |k: u8| match k { 1 => "All", 2 => "Normal", 3 => "Soft", 4 => "Drum", _ => "" };
        let expected = if hs { format!("HitSound{}{}{}", name(a), name(b), match c { 1 => "Whistle", 2 => "Finish", 3 => "Clap", _ => "" }) } else if a == 0 { "Passing".to_string() } else { "Failing".to_string() };
        let s = match t.to_string(v) { Some(s) => s, None => { ensure("printed in every version", false); return; } };
        ensure("a trigger prints its documented name", s == expected);
        cover("printed");
        ensure("the name is read as its trigger", match sb::TriggerType::from_str(&s, v) { Ok(Some(x)) => x == t, _ => false });
    }
    fn p07_trigger_custom() {
        let v = version(3);
        let hs = true;
        let (a, b, c, d) = (any_u8("sample set"), any_u8("additions sample set"), any_u8("addition"), any_u8("custom"));
        assume(a <= 4 && b <= 4 && c <= 3 && d <= 9);
        bounded("custom sample sets of a trigger: ten representative numbers");
        let n = match d { 0 => 0, 1 => 1, 2 => 2, 3 => 7, 4 => 9, 5 => 10, 6 => 12, 7 => 100, 8 => 4294967296, _ => usize::MAX };
        let set = |k: u8| match k { 1 => Some(sb::SampleSet::All), 2 => Some(sb::SampleSet::Normal), 3 => Some(sb::SampleSet::Soft), 4 => Some(sb::SampleSet::Drum), _ => None };
        // an additions sample set alone reads as the sample set
        assume(a > 0 || b == 0);
        let t = if hs {
            sb::TriggerType::HitSound { sample_set: set(a), additions_sample_set: set(b), addition: match c { 1 => Some(sb::Addition::Whistle), 2 => Some(sb::Addition::Finish), 3 => Some(sb::Addition::Clap), _ => None }, custom_sample_set: Some(n) }
        } else if a == 0 { sb::TriggerType::Passing } else { sb::TriggerType::Failing };
        let name = |k: u8| match k { 1 => "All", 2 => "Normal", 3 => "Soft", 4 => "Drum", _ => "" };
        let expected = if hs { format!("HitSound{}{}{}{}", name(a), name(b), match c { 1 => "Whistle", 2 => "Finish", 3 => "Clap", _ => "" }, n.to_string()) } else if a == 0 { "Passing".to_string() } else { "Failing".to_string() };
        let s = match t.to_string(v) { Some(s) => s, None => { ensure("printed in every version", false); return; } };
        ensure("a trigger prints its documented name", s == expected);
        cover("printed");
        ensure("the name is read as its trigger", match sb::TriggerType::from_str(&s, v) { Ok(Some(x)) => x == t, _ => false });
    }
}
#[allow(unused)]
use o::general as _g;
