//! the parts of the public interface that are not parsers or printers of a type
use crate::ghost::*;
use crate::specs::codecs::any_version;
use either::Either;
use osu_file_parser::osu_file::events::audio_sample;
use osu_file_parser::osu_file::events::storyboard::cmds::{Colours as Rgbs, ContinuingFields};
use osu_file_parser::osu_file::events::storyboard::sprites::{Animation, LoopType, Sprite};
use osu_file_parser::osu_file::events::*;
use osu_file_parser::osu_file::hitobjects;
use osu_file_parser::osu_file::timingpoints;
use osu_file_parser::osu_file::types::Error;
use osu_file_parser::osu_file::*;
use rust_decimal::Decimal as Dec;

/// an error to be wrapped
#[derive(Debug, Clone, PartialEq)]
struct Inner(u8);
impl std::fmt::Display for Inner { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("inner") } }
#[derive(Debug, Clone, PartialEq)]
struct Outer(Inner);
impl From<Inner> for Outer { fn from(i: Inner) -> Self { Outer(i) } }
fn is<E: PartialEq>(e: &Error<E>, k: &E, i: usize) -> bool { e.error() == k && e.line_index() == i }
crate::specs! {
    fn p04_errors() {
        let (i, j, k) = (any_usize("line"), any_usize("offset"), any_u8("kind"));
        assume(i < 1 << 40 && j < 1 << 40);
        let (a, b) = (Inner(k), Outer(Inner(k)));
        cover("error");
        ensure("a new error has its line", is(&Error::new(a.clone(), i), &a, i) && is(&Error::<Inner>::new_into::<Outer>(a.clone(), i), &b, i));
        ensure("an error of a single line is on line 0", is(&<Error<Inner> as From<Inner>>::from(a.clone()), &a, 0));
        ensure("a failed result has its line", match Error::<Inner>::new_from_result::<()>(Err(a.clone()), i) { Err(e) => is(&e, &a, i), Ok(_) => false });
        ensure("a failed result has its line and is converted", match Error::<Inner>::new_from_result_into::<(), Outer>(Err(a.clone()), i) { Err(e) => is(&e, &b, i), Ok(_) => false });
        ensure("a result that did not fail is kept", match (Error::<Inner>::new_from_result::<u8>(Ok(k), i), Error::<Inner>::new_from_result_into::<u8, Outer>(Ok(k), i)) { (Ok(x), Ok(y)) => x == k && y == k, _ => false });
        ensure("converting an error keeps its line", is(&Error::new(a.clone(), i).error_into::<Outer>(), &b, i));
        ensure("converting a failed result keeps its line", match Error::<Inner>::error_result_into::<(), Outer>(Err(Error::new(a.clone(), i))) { Err(e) => is(&e, &b, i), Ok(_) => false });
        ensure("the line within a part is added to the line of the part", match Error::<Inner>::processing_line::<(), Outer>(Err(Error::new(a.clone(), i)), j) { Err(e) => is(&e, &b, i + j), Ok(_) => false });
        ensure("a converted result that did not fail is kept", match (Error::<Inner>::error_result_into::<u8, Outer>(Ok(k)), Error::<Inner>::processing_line::<u8, Outer>(Ok(k), j)) { (Ok(x), Ok(y)) => x == k && y == k, _ => false });
    }
    fn p04_error_text() {
        let i = any_usize("line");
        assume(i < 1 << 40);
        cover("error");
        ensure("a printed error counts lines from 1", Error::new(Inner(0), i).to_string() == format!("Line {}, inner", i + 1));
        let (a, b) = (any_str_not("first line", "\n"), any_str_not("second line", "\n"));
        assume(!last_in(a, "\r") && !last_in(b, "\r") && a != "" && b != "");
        let text = format!("{a}\n{b}");
        let show = |n: usize| Error::new(Inner(0), n).display_error_with_line(&text);
        ensure("the line of an error is shown with it", show(0) == format!("Line 1: {a}, inner") && show(1) == format!("Line 2: {b}, inner"));
        ensure("an error behind the text is shown without a line", show(2) == "Line 3: , inner");
    }
    fn p07_decimal() {
        let s = any_str_not("text", "");
        let mut d = Decimal::new_from_str(s);
        ensure("a text is kept", match d.get() { Either::Right(t) => t == s, Either::Left(_) => false });
        ensure("a text is printed as it is", d.to_string() == s);
        match d.try_make_decimal() {
            Ok(()) => { cover("number"); ensure("a text that is a number becomes that number", match (d.get(), s.parse::<Dec>()) { (Either::Left(x), Ok(y)) => *x == y, _ => false }) }
            Err(_) => { cover("text"); ensure("any other text is kept", s.parse::<Dec>().is_err() && match d.get() { Either::Right(t) => t == s, Either::Left(_) => false }) }
        }
        let x = any_dec("number");
        let mut n = Decimal::new(x);
        ensure("a number is stored", match n.get() { Either::Left(y) => *y == x, Either::Right(_) => false });
        ensure("a number stays a number", n.try_make_decimal().is_ok() && match n.get() { Either::Left(y) => *y == x, Either::Right(_) => false });
        let i = any_i32("integer");
        ensure("an integer is the same number", match Decimal::from(i).get() { Either::Left(y) => *y == Dec::from(i), Either::Right(_) => false });
        *n.get_mut() = Either::Right(s.to_string());
        ensure("a changed decimal holds what was given", match n.get() { Either::Right(t) => t == s, Either::Left(_) => false });
        ensure("the default is 0", match Decimal::default().get() { Either::Left(y) => *y == Dec::from(0), Either::Right(_) => false });
    }
    fn p07_numbers() {
        let v = any_version();
        let n = any_u8("small number");
        if let Ok(Some(c)) = hitobjects::ComboSkipCount::new(n, v) { cover("combo"); ensure("a combo skip count is its number", match <u8 as VersionedFrom<hitobjects::ComboSkipCount>>::from(c, v) { Some(k) => k == n, None => false }); }
        if let Ok(x) = audio_sample::Volume::new(n, v) { cover("audio"); ensure("an audio sample volume is its number", match <u8 as VersionedFrom<audio_sample::Volume>>::from(x, v) { Some(k) => k == n, None => false }); }
        if let Ok(x) = hitobjects::Volume::new(if n == 0 { None } else { Some(n) }) { cover("sample"); ensure("a hit sample volume is its number", match <i32 as VersionedFrom<hitobjects::Volume>>::from(x, v) { Some(k) => k == n as i32, None => false }); }
        let i = any_i32("number");
        if let Some(x) = timingpoints::Volume::new(i, v) { ensure("a timing point volume is its number", x.volume() == i && match <i32 as VersionedFrom<timingpoints::Volume>>::from(x, v) { Some(k) => k == i, None => false }); }
        if let Some(mut x) = timingpoints::Volume::new(0, v) { x.set_volume(i); ensure("a set volume is stored", x.volume() == i); }
        let k = any_i64("index");
        assume(k >= 0 && k <= 0xffff_ffff);
        if let Some(x) = <timingpoints::SampleIndex as VersionedFrom<u32>>::from(k as u32, v) {
            ensure("a sample index is its number", match <u32 as VersionedFrom<timingpoints::SampleIndex>>::from(x, v) { Some(m) => m == k as u32, None => false });
            if k < 1 << 31 { ensure("a sample index is its integer", match <i32 as VersionedFrom<timingpoints::SampleIndex>>::from(x, v) { Some(m) => m as i64 == k, None => false }); }
        }
        let u = any_usize("size");
        if let Some(x) = <hitobjects::SampleIndex as VersionedFrom<usize>>::from(u, v) { ensure("a hit sample index is its number", match <usize as VersionedFrom<hitobjects::SampleIndex>>::from(x, v) { Some(m) => m == u, None => false }); }
    }
    fn p09_start_values() {
        let (a, b, c, d) = (any_u8("a"), any_u8("b"), any_u8("c"), any_u8("d"));
        if let Ok(mut f) = ContinuingFields::new((a, b), vec![(c, Some(d))]) {
            cover("fields");
            *f.start_values_mut() = (c, d);
            let l = f.continuing_fields();
            ensure("changed start values leave the continuing fields", *f.start_values() == (c, d) && l.len() == 1 && l[0] == (c, Some(d)));
        }
        if let Ok(mut f) = Rgbs::new((a, b, c), vec![(c, Some(d), Some(a))]) {
            cover("colours");
            *f.start_rgb_mut() = (d, c, b);
            let l = f.continuing_fields();
            ensure("a changed start colour leaves the continuing colours", *f.start_rgb() == (d, c, b) && l.len() == 1 && l[0] == (c, Some(d), Some(a)));
        }
    }
    fn p14_new() {
        let v = any_u8("version");
        assume(v >= 5 && v <= 14);
        let (t, e) = (any_i32("start"), any_i32("end"));
        let f = any_str_not("file", " ,\"\r\n");
        assume(f != "");
        cover("built");
        ensure("a new break has its times", match Break::new(t, e).to_string(v) { Some(s) => s == format!("2,{t},{e}"), None => false });
        let x = Video::new(t, FilePath::from(f), None);
        ensure("a new video has its arguments", x.start_time == t && x.position.is_none() && x.commands.is_empty() && match x.to_string(v) { Some(s) => s == format!("1,{t},{f}"), None => false });
        let (px, py) = (any_i32("x"), any_i32("y"));
        let y = Video::new(t, FilePath::from(f), Some(Position { x: Decimal::from(px), y: Decimal::from(py) }));
        ensure("a new video with a position has its arguments", match y.to_string(v) { Some(s) => s == format!("1,{t},{f},{px},{py}"), None => false });
        let mut p = FilePath::from("a");
        p.set(f);
        ensure("a set path is stored", match p.to_string(v) { Some(s) => s == f, None => false });
    }
    fn p14_sprite_new() {
        let f = any_str_not("file", "\r\n");
        match Sprite::new(std::path::Path::new(f)) {
            Ok(s) => { cover("relative"); ensure("a sprite's path is relative and stored", !f.starts_with('/') && match s.filepath.get().to_str() { Some(p) => p == f, None => false }) }
            Err(_) => { cover("absolute"); ensure("a relative path is accepted", f.starts_with('/')) }
        }
    }
    // the frames of an animation are numbered between the name and its extension
    fn p14_frame_names() {
        let (dir, name, ext) = (any_str_not("directory", "\r\n"), any_str_not("name", "/\r\n"), any_str_not("extension", "./\r\n"));
        let k = any_u8("frames");
        assume(k <= 3);
        bounded("at most three frames");
        let plain = any_bool("no directory");
        let dotted = any_bool("extension given");
        assume(name != "" && (dotted || match name.strip_prefix('.') { Some(r) => r != "" && !r.contains('.'), None => !name.contains('.') }));
        let file = if dotted { format!("{name}.{ext}") } else { name.to_string() };
        assume(file != "..");
        let a = Animation { frame_count: k as u32, frame_delay: Dec::from(1), loop_type: LoopType::LoopForever, filepath: FilePath::from(if plain { file.clone() } else { format!("{dir}/{file}") }) };
        let l = a.frame_file_names();
        cover("names");
        ensure("one name for each frame", l.len() == k as usize);
        let mut i = 0;
        while i < l.len() {
            let want = if dotted { format!("{name}{i}.{ext}") } else { format!("{name}{i}") };
            ensure("a frame has its number behind the name", match l[i].to_str() { Some(s) => s == want, None => false });
            i += 1;
        }
    }
    // the printed event is that of its kind
    fn p14_event_print() {
        use_codec_events();
        let v = any_version();
        let s = any_str_not("comment", "\r\n");
        cover("printed");
        ensure("a comment is printed behind its slashes", match Event::Comment(s.to_string()).to_string(v) { Some(t) => t == format!("//{s}"), None => false });
        if let Ok(Some(b)) = Break::from_str(any_str_not("break", "\r\n"), v) { ensure("a break is printed as itself", Event::Break(b.clone()).to_string(v) == b.to_string(v)); }
        if let Ok(Some(b)) = ColourTransformation::from_str(any_str_not("colour", "\r\n"), v) { ensure("a colour transformation is printed as itself", Event::ColourTransformation(b.clone()).to_string(v) == b.to_string(v)); }
        if let Ok(Some(b)) = AudioSample::from_str(any_str_not("audio", "\r\n"), v) { ensure("an audio sample is printed as itself", Event::AudioSample(b.clone()).to_string(v) == b.to_string(v)); }
        if let Ok(Some(b)) = Background::from_str(any_str_not("background", "\r\n"), v) { ensure("a background is printed as itself", Event::Background(b.clone()).to_string(v) == b.to_string(v)); }
        if let Ok(Some(b)) = Video::from_str(any_str_not("video", "\r\n"), v) { ensure("a video is printed as itself", Event::Video(b.clone()).to_string(v) == b.to_string(v)); }
    }
    // an empty list of each kind
    fn p05_defaults() {
        let v = any_version();
        cover("default");
        ensure("default lists are empty", match (<HitObjects as VersionedDefault>::default(v), <TimingPoints as VersionedDefault>::default(v), <Events as VersionedDefault>::default(v)) { (Some(h), Some(t), Some(e)) => h.0.is_empty() && t.0.is_empty() && e.0.is_empty(), _ => false });
        let f = OsuFile::default(v);
        ensure("a default file has its version and no section", f.version == v && f.general.is_none() && f.editor.is_none() && f.metadata.is_none() && f.difficulty.is_none() && f.events.is_none() && f.timing_points.is_none() && f.colours.is_none() && f.hitobjects.is_none() && f.osb.is_none());
    }
}
fn use_codec_events() {
    use_line::<Break>(&["2,0,1"]);
    use_line::<ColourTransformation>(&["3,0,1,2,3"]);
    use_line::<AudioSample>(&["Sample,1,Pass,a,1"]);
    use_line::<Background>(&["0,0,a"]);
    use_line::<Video>(&["1,0,a"]);
}
