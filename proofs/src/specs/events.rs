//! event and colour lines
use crate::ghost::*;
use crate::specs::codecs::*;
use osu_file_parser::osu_file::colours::{Colour, Rgb};
use osu_file_parser::osu_file::events::audio_sample::{self, AudioSample};
use osu_file_parser::osu_file::events::storyboard::sprites::{Layer, LoopType, Object, ObjectType, Origin};
use osu_file_parser::osu_file::events::*;
use osu_file_parser::osu_file::events::normal_event::types::*;
use osu_file_parser::osu_file::*;
use rust_decimal::Decimal as Dec;

macro_rules! codec { ($t:ty, $not:expr, $acc:expr, $ex:expr) => { impl Codec for $t { const PRINTED_NOT: &'static str = $not; const ACCEPTS_NOT: &'static str = $acc; const EXAMPLES: &'static [&'static str] = &$ex; } } }
const NUMNOT: &str = " \t\r\n,:|\"'[]/_=$aAzZ";
codec!(LayerLegacy, NUMNOT, ",:|\r\n", ["0", "3", "5"]);
codec!(OriginTypeLegacy, NUMNOT, ",:|\r\n", ["0", "3", "9"]);
codec!(Layer, " \t\r\n,:|\"'[]/_=$0123456789", ",:|\r\n", ["Background", "Foreground", "Overlay"]);
codec!(LoopType, " \t\r\n,:|\"'[]/_=$0123456789", ",:|\r\n", ["LoopForever", "LoopOnce"]);
codec!(Origin, " \t\r\n,:|\"'[]/_=$", ",:|\r\n", ["Centre", "TopLeft", "1", "12"]);
codec!(audio_sample::Volume, NUMNOT, ",:|\r\n", ["0", "70", "100"]);
codec!(Rgb, " \t\r\n:|\"'[]/_=$aAzZ", ":|\r\n", ["0,0,0", "1,2,3", "255,128,7"]);

pub fn use_layers() {
    use_codec::<LayerLegacy>();
    use_codec::<OriginTypeLegacy>();
    use_codec::<Layer>();
    use_codec::<Origin>();
    use_codec::<LoopType>();
    use_codec::<audio_sample::Volume>();
}
fn path_text(p: &FilePath) -> String { match p.get().to_str() { Some(s) => s.to_string(), None => String::new() } }
/// a file name is read back as it was printed (with the quotes it gained)
pub fn same_path(a: &FilePath, b: &FilePath, v: u8) -> bool { match a.to_string(v) { Some(t) => t == path_text(b), None => false } }
pub fn same_object(a: &Object, b: &Object, v: u8) -> bool {
    a.layer == b.layer && a.origin == b.origin && a.position == b.position && a.commands.len() == b.commands.len()
        && match (&a.object_type, &b.object_type) {
            (ObjectType::Sprite(p), ObjectType::Sprite(q)) => same_path(&p.filepath, &q.filepath, v),
            (ObjectType::Animation(p), ObjectType::Animation(q)) => p.frame_count == q.frame_count && p.frame_delay == q.frame_delay && p.loop_type == q.loop_type && same_path(&p.filepath, &q.filepath, v),
            _ => false,
        }
}
/// a line that is accepted prints to a line that is accepted as the same value and prints identically
fn survives<T: VersionedFromStr + VersionedToString>(v: u8, s: &str, same: impl Fn(&T, &T, u8) -> bool) {
    if let Ok(Some(a)) = T::from_str(s, v) {
        cover("accepted");
        if let Some(t) = a.to_string(v) {
            cover("printed");
            match T::from_str(&t, v) {
                Ok(Some(b)) => {
                    ensure("the re-read value is equal", same(&a, &b, v));
                    ensure("printing again gives the identical line", match b.to_string(v) { Some(u) => u == t, None => false });
                }
                _ => ensure("the printed line is accepted", false),
            }
        }
    }
}
fn line() -> (u8, &'static str) {
    let v = any_version();
    (v, any_str_not("line", "\r\n"))
}
fn field(label: &str) -> &'static str { any_str_not(label, ",\r\n") }
fn name_field() -> &'static str { field("file name") }
fn quoted(p: &str) -> String { if has_char(p, " ") && !(first_in(p, "\"") && last_in(p, "\"")) { format!("\"{p}\"") } else { p.to_string() } }
/// a time, and what the version makes of it
fn time(v: u8) -> (i32, i32) {
    let t = any_i32("time");
    if v <= 4 { assume(t <= i32::MAX - 24); (t, t + 24) } else { (t, t) }
}
/// an optional position: its text and its value
fn position() -> (String, Option<Position>) {
    if any_bool("has a position") {
        let (x, y) = (any_dec("x"), any_dec("y"));
        (format!(",{x},{y}"), Some(Position { x: Decimal::new(x), y: Decimal::new(y) }))
    } else { (String::new(), None) }
}
crate::specs! {
    fn p07_layerlegacy() { codec_proof::<LayerLegacy>() }
    fn p07_originlegacy() { codec_proof::<OriginTypeLegacy>() }
    fn p07_layer_codec() { codec_proof::<Layer>() }
    fn p07_looptype_codec() { codec_proof::<LoopType>() }
    fn p07_origin_codec() { codec_proof::<Origin>() }
    fn p07_audio_volume_codec() { codec_proof::<audio_sample::Volume>() }
    fn p07_rgb() { codec_proof::<Rgb>() }

    // ---- C14
    fn p14_filepath() {
        let v = any_version();
        let p = any_str_not("path", "\r\n");
        let f = FilePath::from(p);
        cover("path");
        ensure("a file name prints with quotes exactly when it needs or already has them", match f.to_string(v) { Some(t) => t == quoted(p), None => false });
        ensure("the path is kept", path_text(&f) == p);
        let mut g = FilePath::from("other");
        g.set(p);
        ensure("set stores the path", path_text(&g) == p);
    }
    fn p14_background() {
        let (v, s) = line();
        survives::<Background>(v, s, |a, b, v| a.start_time == b.start_time && a.position == b.position && a.commands.len() == 0 && b.commands.len() == 0 && same_path(&a.file_name, &b.file_name, v));
    }
    fn p14_video() {
        let (v, s) = line();
        survives::<Video>(v, s, |a, b, v| {
            let mut c = b.clone();
            c.file_name = a.file_name.clone();
            *a == c && same_path(&a.file_name, &b.file_name, v)
        });
    }
    fn p14_break() { let (v, s) = line(); survives::<Break>(v, s, |a, b, _| a == b); }
    fn p14_colour_transformation() { let (v, s) = line(); survives::<ColourTransformation>(v, s, |a, b, _| a == b); }
    fn p14_sprite_legacy() {
        use_layers();
        let (v, s) = line();
        survives::<SpriteLegacy>(v, s, |a, b, v| a.layer == b.layer && a.origin == b.origin && a.position == b.position && same_path(&a.file_name, &b.file_name, v));
    }
    fn p14_animation_legacy() {
        use_layers();
        let (v, s) = line();
        survives::<AnimationLegacy>(v, s, |a, b, v| a.layer == b.layer && a.origin == b.origin && a.position == b.position && same_path(&a.file_name, &b.file_name, v));
    }
    fn p14_sample_legacy() {
        use_layers();
        let (v, s) = line();
        survives::<SampleLegacy>(v, s, |a, b, v| a.time == b.time && a.layer == b.layer && a.volume == b.volume && same_path(&a.file_name, &b.file_name, v));
    }
    fn p14_object() {
        use_layers();
        let (v, s) = line();
        survives::<Object>(v, s, same_object);
    }
    fn p14_audio_sample() {
        use_layers();
        let (v, s) = line();
        survives::<AudioSample>(v, s, |a, b, v| a.time == b.time && a.layer == b.layer && a.volume == b.volume && same_path(&a.filepath, &b.filepath, v));
    }
    fn p14_colour() {
        let (v, s) = line();
        survives::<Colour>(v, s, |a, b, _| a == b);
    }

    // ---- C03
    fn p03_background() {
        let v = any_version();
        let (t, n) = (any_i32("time"), name_field());
        let (ps, p) = position();
        match Background::from_str(&format!("0,{t},{n}{ps}"), v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("start time", b.start_time == t);
                ensure("file name", path_text(&b.file_name) == n);
                ensure("position", b.position == p);
                ensure("every field is printed in its place", match b.to_string(v) { Some(s) => s == format!("0,{t},{}{ps}", quoted(n)), None => false });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_video() {
        let v = any_version();
        let ((t, w), n) = (time(v), name_field());
        let (ps, p) = position();
        let h = if any_bool("short") { "1" } else { "Video" };
        match Video::from_str(&format!("{h},{t},{n}{ps}"), v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("start time", b.start_time == w);
                ensure("file name", path_text(&b.file_name) == n);
                ensure("position", b.position == p);
                ensure("every field is printed in its place", match b.to_string(v) { Some(s) => s == format!("{h},{t},{}{ps}", quoted(n)), None => false });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_break() {
        let v = any_version();
        let (t, w) = time(v);
        let e = any_i32("end time");
        assume(v > 4 || e <= i32::MAX - 24);
        let h = if any_bool("short") { "2" } else { "Break" };
        let l = format!("{h},{t},{e}");
        match Break::from_str(&l, v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("start time", b.start_time == w);
                ensure("end time", b.end_time == if v <= 4 { e + 24 } else { e });
                ensure("every field is printed in its place", match b.to_string(v) { Some(s) => s == l, None => false });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_colour_transformation() {
        let v = any_version();
        let (t, w) = time(v);
        let (r, g, b) = (any_u8("red"), any_u8("green"), any_u8("blue"));
        let l = format!("3,{t},{r},{g},{b}");
        match ColourTransformation::from_str(&l, v) {
            Ok(Some(c)) => {
                cover("accepted");
                ensure("start time", c.start_time == w);
                ensure("colours", c.red == r && c.green == g && c.blue == b);
                ensure("every field is printed in its place", match c.to_string(v) { Some(s) => s == l && v < 14, None => v >= 14 });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_sprite_legacy() {
        use_layers();
        let v = any_version();
        let (ls, os, n) = (field("layer"), field("origin"), name_field());
        let (Ok(Some(layer)), Ok(Some(origin))) = (LayerLegacy::from_str(ls, v), OriginTypeLegacy::from_str(os, v)) else { return };
        let (ps, p) = position();
        let tail = format!("{},{},{}{ps}", layer.to_string(v).unwrap(), origin.to_string(v).unwrap(), quoted(n));
        match SpriteLegacy::from_str(&format!("4,{ls},{os},{n}{ps}"), v) {
            Ok(Some(b)) => {
                cover("sprite accepted");
                ensure("sprite fields", b.layer == layer && b.origin == origin && b.position == p && path_text(&b.file_name) == n);
                ensure("every sprite field is printed in its place", match b.to_string(v) { Some(s) => s == format!("4,{tail}"), None => false });
            }
            _ => ensure("a sprite line of valid fields is accepted", false),
        }
        match AnimationLegacy::from_str(&format!("5,{ls},{os},{n}{ps}"), v) {
            Ok(Some(b)) => {
                cover("animation accepted");
                ensure("animation fields", b.layer == layer && b.origin == origin && b.position == p && path_text(&b.file_name) == n);
                ensure("every animation field is printed in its place", match b.to_string(v) { Some(s) => s == format!("5,{tail}"), None => false });
            }
            _ => ensure("an animation line of valid fields is accepted", false),
        }
    }
    fn p03_sample_legacy() {
        use_layers();
        let v = any_version();
        let (t, ls, n, vs) = (field("time"), field("layer"), name_field(), field("volume"));
        let (Ok(Some(layer)), Ok(Some(volume))) = (LayerLegacy::from_str(ls, v), audio_sample::Volume::from_str(vs, v)) else { return };
        let has = any_bool("has a volume");
        match SampleLegacy::from_str(&if has { format!("6,{t},{ls},{n},{vs}") } else { format!("6,{t},{ls},{n}") }, v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("fields", b.time == Decimal::from(t) && b.layer == layer && path_text(&b.file_name) == n);
                ensure("volume", match b.volume { Some(x) => has && x == volume, None => !has });
                let head = format!("6,{},{},{}", Decimal::from(t), layer.to_string(v).unwrap(), quoted(n));
                let expected = if has { format!("{head},{}", volume.to_string(v).unwrap()) } else { head };
                ensure("every field is printed in its place", match b.to_string(v) { Some(s) => s == expected, None => false });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_audio_sample() {
        use_layers();
        let v = any_version();
        let (t, l, n, vs) = (any_i32("time"), any_u8("layer"), name_field(), field("volume"));
        let Ok(Some(volume)) = audio_sample::Volume::from_str(vs, v) else { return };
        let has = any_bool("has a volume");
        let r = AudioSample::from_str(&if has { format!("Sample,{t},{l},{n},{vs}") } else { format!("Sample,{t},{l},{n}") }, v);
        if l > 3 { ensure("an unknown layer is rejected", r.is_err()); return; }
        match r {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("fields", b.time == t && b.layer as usize == l as usize && path_text(&b.filepath) == n);
                ensure("the volume of a sample without one is 100", if has { b.volume == volume } else { b.volume.get() == 100 });
                if has { ensure("every field is printed in its place", match b.to_string(v) { Some(s) => s == format!("Sample,{t},{l},{},{}", quoted(n), volume.to_string(v).unwrap()), None => false }); }
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_object() {
        use_layers();
        let v = any_version();
        let (ls, os, n) = (field("layer"), field("origin"), name_field());
        let (xs, ys) = (field("x"), field("y"));
        let (Ok(Some(layer)), Ok(Some(origin))) = (Layer::from_str(ls, v), Origin::from_str(os, v)) else { return };
        let p = Position { x: Decimal::from(xs), y: Decimal::from(ys) };
        let tail = format!("{},{},{},{},{}", layer.to_string(v).unwrap(), origin.to_string(v).unwrap(), quoted(n), p.x, p.y);
        match Object::from_str(&format!("Sprite,{ls},{os},{n},{xs},{ys}"), v) {
            Ok(Some(b)) => {
                cover("sprite accepted");
                ensure("sprite fields", b.layer == layer && b.origin == origin && b.position == p && b.commands.is_empty());
                ensure("sprite file name", match &b.object_type { ObjectType::Sprite(s) => path_text(&s.filepath) == n, _ => false });
                ensure("every sprite field is printed in its place", match b.to_string(v) { Some(s) => s == format!("Sprite,{tail}"), None => false });
            }
            _ => ensure("a sprite line of valid fields is accepted", false),
        }
    }
    fn p03_animation() {
        use_layers();
        let v = any_version();
        let (ls, os, n) = (field("layer"), field("origin"), name_field());
        let (xs, ys, lt) = (field("x"), field("y"), field("loop type"));
        let (Ok(Some(layer)), Ok(Some(origin)), Ok(Some(loop_type))) = (Layer::from_str(ls, v), Origin::from_str(os, v), LoopType::from_str(lt, v)) else { return };
        let p = Position { x: Decimal::from(xs), y: Decimal::from(ys) };
        let c = any_i64("frame count");
        assume(c >= 0 && c <= u32::MAX as i64);
        let d = any_dec("frame delay");
        let has = any_bool("has a loop type");
        let line = format!("Animation,{ls},{os},{n},{xs},{ys},{c},{d}");
        match Object::from_str(&if has { format!("{line},{lt}") } else { line }, v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("object fields", b.layer == layer && b.origin == origin && b.position == p && b.commands.is_empty());
                match &b.object_type {
                    ObjectType::Animation(a) => {
                        ensure("animation fields", path_text(&a.filepath) == n && a.frame_count as i64 == c && a.frame_delay == d);
                        ensure("an animation without a loop type loops forever", a.loop_type == if has { loop_type } else { LoopType::LoopForever });
                    }
                    _ => ensure("an animation", false),
                }
                let tail = format!("{},{},{},{},{},{c},{d}", layer.to_string(v).unwrap(), origin.to_string(v).unwrap(), quoted(n), p.x, p.y);
                if has { ensure("every field is printed in its place", match b.to_string(v) { Some(s) => s == format!("Animation,{tail},{}", loop_type.to_string(v).unwrap()), None => false }); }
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_colour() {
        let v = any_version();
        let (r, g, b) = (any_u8("red"), any_u8("green"), any_u8("blue"));
        let n = any_i32("combo");
        assume(n >= 0);
        let k = any_u8("kind");
        assume(k < 3);
        let rgb = Rgb { red: r, green: g, blue: b };
        let (l, e) = match k { 0 => (format!("Combo{n} : {r},{g},{b}"), Colour::Combo(n, rgb)), 1 => (format!("SliderTrackOverride : {r},{g},{b}"), Colour::SliderTrackOverride(rgb)), _ => (format!("SliderBorder : {r},{g},{b}"), Colour::SliderBorder(rgb)) };
        match Colour::from_str(&l, v) {
            Ok(Some(c)) => {
                cover("accepted");
                ensure("every field of a colour is in its place", c == e);
                ensure("every field is printed in its place", match c.to_string(v) { Some(s) => s == l, None => false });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }

    // ---- C06
    fn p06_video() {
        let v = any_version();
        let (t, w) = time(v);
        match Video::from_str(&format!("1,{t},a"), v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("a video time is shifted in versions 3 and 4 only", b.start_time == w);
                ensure("printing subtracts the same amount", match b.to_string(v) { Some(s) => s == format!("1,{t},a"), None => false });
            }
            _ => ensure("accepted", false),
        }
    }
    fn p06_break() {
        let v = any_version();
        let ((t, w), e) = (time(v), any_i32("end time"));
        assume(v > 4 || e <= i32::MAX - 24);
        match Break::from_str(&format!("2,{t},{e}"), v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("break times are shifted in versions 3 and 4 only", b.start_time == w && b.end_time == if v <= 4 { e + 24 } else { e });
                ensure("printing subtracts the same amount", match b.to_string(v) { Some(s) => s == format!("2,{t},{e}"), None => false });
            }
            _ => ensure("accepted", false),
        }
    }
    fn p06_colour_transformation() {
        let v = any_version();
        let (t, w) = time(v);
        match ColourTransformation::from_str(&format!("3,{t},1,2,3"), v) {
            Ok(Some(b)) => {
                cover("accepted");
                ensure("a colour transformation time is shifted in versions 3 and 4 only", b.start_time == w);
                if v < 14 { ensure("printing subtracts the same amount", match b.to_string(v) { Some(s) => s == format!("3,{t},1,2,3"), None => false }); }
            }
            _ => ensure("accepted", false),
        }
    }
    fn p06_unshifted() {
        let v = any_version();
        let (t, d) = (any_i32("time"), any_dec("sample time"));
        match Background::from_str(&format!("0,{t},a"), v) {
            Ok(Some(b)) => { cover("background"); ensure("a background time is the written number", b.start_time == t && match b.to_string(v) { Some(s) => s == format!("0,{t},a"), None => false }); }
            _ => ensure("background accepted", false),
        }
        match SampleLegacy::from_str(&format!("6,{d},0,a"), v) {
            Ok(Some(b)) => { cover("sample"); ensure("a sample time is the written number", b.time == Decimal::new(d) && match b.to_string(v) { Some(s) => s == format!("6,{d},0,a"), None => false }); }
            _ => ensure("sample accepted", false),
        }
        match AudioSample::from_str(&format!("Sample,{t},0,a,50"), v) {
            Ok(Some(b)) => { cover("audio sample"); ensure("an audio sample time is the written number", b.time == t && match b.to_string(v) { Some(s) => s == format!("Sample,{t},0,a,50"), None => false }); }
            _ => ensure("audio sample accepted", false),
        }
    }
}
#[allow(unused)]
type _D = Dec;
