//! reading and printing end without a panic
use crate::ghost::*;
use crate::specs::codecs::any_version;
use crate::specs::objects;
use osu_file_parser::osu_file::colours::{Colour, Rgb};
use osu_file_parser::osu_file::events::audio_sample::{self, AudioSample};
use osu_file_parser::osu_file::events::normal_event::types::*;
use osu_file_parser::osu_file::events::storyboard::cmds::Command;
use osu_file_parser::osu_file::events::storyboard::sprites::{Animation, Layer, LoopType, Object, ObjectType, Origin};
use osu_file_parser::osu_file::events::storyboard::types::*;
use osu_file_parser::osu_file::events::*;
use osu_file_parser::osu_file::hitobjects::*;
use osu_file_parser::osu_file::osb::{Osb, Variable};
use osu_file_parser::osu_file::timingpoints::TimingPoint;
use osu_file_parser::osu_file::*;

fn reads<T: VersionedFromStr>() {
    let v = any_version();
    let s = any_str_not("text", "");
    match T::from_str(s, v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") }
    ensure("reading ends with a value or an error", true);
}
fn ends<T: VersionedFromStr + VersionedToString>(v: u8, s: &str) {
    match T::from_str(s, v) {
        Ok(Some(a)) => { cover("accepted"); if a.to_string(v).is_some() { cover("printed") } }
        Ok(None) => {}
        Err(_) => cover("refused"),
    }
    ensure("reading and printing end", true);
}
fn line<T: VersionedFromStr + VersionedToString>() {
    let v = any_version();
    ends::<T>(v, any_str_not("text", ""));
}
fn lines(n: usize) -> &'static str {
    let s = any_str_not("text", "");
    at_most(s, '\n', n);
    bounded("the number of lines of the text");
    s
}
fn key_value_line(f: impl Fn(&str, u8)) {
    let v = any_version();
    let s = any_str_not("line", "\r\n");
    let end = any_str_of("end", "\r\n");
    at_most(s, ',', 1);
    at_most(s, ' ', 3);
    bounded("the number of items of a list");
    f(&format!("{s}{end}"), v);
}
fn after_line(first: &str, f: impl Fn(&str, u8) -> bool) {
    let v = any_version();
    let s = any_str_not("second line", "\r\n");
    at_most(s, ',', 1);
    at_most(s, ' ', 3);
    bounded("the number of items of a list");
    if f(&format!("{first}\n{s}"), v) { cover("accepted") } else { cover("refused") }
}
crate::specs! {
    fn p01_timing() { line::<TimingPoint>() }
    fn p01_colour() { line::<Colour>() }
    fn p01_background() { line::<Background>() }
    fn p01_video() { line::<Video>() }
    fn p01_break() { line::<Break>() }
    fn p01_colour_transformation() { line::<ColourTransformation>() }
    fn p01_sprite_legacy() { line::<SpriteLegacy>() }
    fn p01_animation_legacy() { line::<AnimationLegacy>() }
    fn p01_sample_legacy() { line::<SampleLegacy>() }
    fn p01_audio_sample() { line::<AudioSample>() }
    fn p01_object() { line::<Object>() }
    fn p01_variable() { line::<Variable>() }
    fn p01_hit_sample() { line::<HitSample>() }
    fn p01_rgb() { line::<Rgb>() }
    fn p01_edge_set() { line::<EdgeSet>() }
    fn p01_curve_point() { line::<CurvePoint>() }
    fn p01_curve_type() { line::<CurveType>() }
    fn p01_hit_sound() { line::<HitSound>() }
    fn p01_sample_index() { line::<SampleIndex>() }
    fn p01_sample_sets() { line::<hitobjects::SampleSet>(); line::<timingpoints::SampleSet>(); line::<general::SampleSet>(); line::<storyboard::types::SampleSet>() }
    fn p01_volumes() { reads::<hitobjects::Volume>(); line::<timingpoints::Volume>(); line::<audio_sample::Volume>() }
    fn p01_general_enums() { line::<general::Mode>(); line::<general::Countdown>(); line::<general::OverlayPosition>() }
    fn p01_layer() { line::<Layer>() }
    fn p01_loop_type() { line::<LoopType>() }
    fn p01_origin() { line::<Origin>() }
    fn p01_parameter() { line::<Parameter>() }
    fn p01_layer_legacy() { line::<LayerLegacy>() }
    fn p01_origin_legacy() { line::<OriginTypeLegacy>() }
    fn p01_timing_types() { line::<timingpoints::SampleIndex>(); line::<timingpoints::Effects>() }
    fn p01_object_without_lists() {
        objects::use_parts();
        let v = any_version();
        let s = any_str_not("text", "|");
        ends::<HitObject>(v, s);
    }
    fn p01_object_lists() {
        objects::use_parts();
        let v = any_version();
        let s = any_str_not("text", "");
        at_most(s, '|', 2);
        bounded("lists of a hit object have at most three items");
        match HitObject::from_str(s, v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") }
    }
    fn p01_trigger() {
        let v = any_version();
        bounded("trigger names of at most three of twelve parts");
        let part = |k: u8| match k { 0 => "", 1 => "All", 2 => "Normal", 3 => "Drum", 4 => "Whistle", 5 => "Clap", 6 => "7", 7 => "123", 8 => "é", 9 => "X", 10 => "a", 11 => "-", _ => { assume(false); "" } };
        let (a, b, c) = (any_u8("first"), any_u8("second"), any_u8("third"));
        let s = format!("{}{}{}", part(a), part(b), part(c));
        ends::<TriggerType>(v, &format!("HitSound{s}"));
    }
    fn p01_command() {
        use_codec::<TriggerType>();
        use_codec::<Parameter>();
        let v = any_version();
        let s = any_str_not("text", "");
        at_most(s, ',', 6);
        bounded("a command has at most seven fields");
        ends::<Command>(v, s);
    }
    fn p01_general_line() { key_value_line(|s, v| if let Ok(Some(x)) = General::from_str(s, v) { cover("accepted"); x.to_string(v); }) }
    fn p01_editor_line() { key_value_line(|s, v| if let Ok(Some(x)) = Editor::from_str(s, v) { cover("accepted"); x.to_string(v); }) }
    fn p01_metadata_line() { key_value_line(|s, v| if let Ok(Some(x)) = Metadata::from_str(s, v) { cover("accepted"); x.to_string(v); }) }
    fn p01_difficulty_line() { key_value_line(|s, v| if let Ok(Some(x)) = Difficulty::from_str(s, v) { cover("accepted"); x.to_string(v); }) }
    fn p01_general_lines() { after_line("PreviewTime:1", |s, v| { General::from_str(s, v).is_ok() }) }
    fn p01_editor_lines() { after_line("GridSize:1", |s, v| { Editor::from_str(s, v).is_ok() }) }
    fn p01_metadata_lines() { after_line("BeatmapID:1", |s, v| { Metadata::from_str(s, v).is_ok() }) }
    fn p01_difficulty_lines() { after_line("CircleSize:1", |s, v| { Difficulty::from_str(s, v).is_ok() }) }
    fn p01_event_line() {
        use_codec::<TriggerType>();
        use_codec::<Parameter>();
        let v = any_version();
        let s = any_str_not("line", "\n");
        at_most(s, ',', 3);
        bounded("the number of fields of the line");
        match Events::from_str(s, v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") }
    }
    fn p01_event_command_line() {
        use_codec::<TriggerType>();
        use_codec::<Parameter>();
        let v = any_version();
        let s = any_str_not("line", "\n");
        at_most(s, ',', 1);
        bounded("the number of fields of the line");
        let h = match any_u8("event") { 0 => "0,0,a", 1 => "Video,0,a", 2 => "4,0,0,a,0,0", 3 => "5,0,0,a,0,0,1,1,0", 4 => "6,0,0,a,1", 5 => "Sprite,Fail,Centre,a,0,0", 6 => "2,0,1", 7 => "Sample,0,Fail,a,1", 8 => "//", 9 => "0,0,a\n L,1,2", 10 => "0,0,a\n F,0,1,2,3", _ => { assume(false); "" } };
        match Events::from_str(&format!("{h}\n{s}"), v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") }
    }
    fn p01_timing_points() { let v = any_version(); match TimingPoints::from_str(lines(0), v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") } }
    fn p01_colours() { let v = any_version(); match colours::Colours::from_str(lines(0), v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") } }
    fn p01_hit_objects() { let v = any_version(); let s = lines(0); at_most(s, '|', 0); at_most(s, ',', 8); match HitObjects::from_str(s, v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") } }
    fn p01_trigger_name() { let v = any_version(); let s = any_str_not("text", ""); assume(!s.trim().starts_with("HitSound")); ends::<TriggerType>(v, s) }
    fn p01_storyboard() { let v = any_u8("version"); let s = lines(0); at_most(s, '[', 2); match Osb::from_str(s, v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") } }
    fn p01_storyboard_section() {
        let v = any_u8("version");
        let n = any_str_not("name", "[]\r\n");
        let s = any_str_not("line", "[\r\n");
        at_most(s, ',', 1);
        bounded("one section of one line");
        use_codec::<TriggerType>();
        match Osb::from_str(&format!("[{n}]\n{s}"), v) { Ok(_) => cover("accepted"), Err(_) => cover("refused") }
    }
    fn p01_file() { let s = lines(0); at_most(s, '[', 1); at_most(s, '\r', 0); at_most(s, ',', 0); match s.parse::<OsuFile>() { Ok(f) => { cover("accepted"); f.to_string(); } Err(_) => cover("refused") } }
    fn p01_file_version() { let v = any_str_not("version", "\r\n"); match format!("osu file format v{v}\n").parse::<OsuFile>() { Ok(f) => { cover("accepted"); f.to_string(); } Err(_) => cover("refused") } }
    fn p01_file_section() {
        let n = any_str_not("name", "[]\r\n");
        let s = any_str_not("line", "[\r\n");
        at_most(s, ',', 1);
        at_most(s, '|', 0);
        at_most(s, ' ', 2);
        bounded("one section of one line");
        use_codec::<TriggerType>();
        match format!("osu file format v14\n[{n}]\n{s}").parse::<OsuFile>() { Ok(_) => cover("accepted"), Err(_) => cover("refused") }
    }
    fn p01_bpm() {
        let v = any_version();
        if let Ok(Some(t)) = TimingPoint::from_str(any_str_not("text", ""), v) { cover("accepted"); t.calc_bpm(); t.calc_slider_velocity_multiplier(); }
    }
    fn p01_frame_names() {
        let v = any_version();
        if let Ok(Some(o)) = Object::from_str(any_str_not("text", ""), v) {
            if let ObjectType::Animation(a) = o.object_type {
                cover("an animation");
                assume(a.frame_count <= 2 && match a.filepath.get().to_str() { Some(p) => !p.contains("/."), None => false });
                bounded("no part of the path of an animation starts with a dot");
                bounded("at most two frames");
                ensure("one name per frame", a.frame_file_names().len() == a.frame_count as usize);
            }
        }
    }
}
