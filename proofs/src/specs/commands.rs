//! storyboard commands: their texts and their nesting
use crate::ghost::*;
use crate::specs::codecs::*;
use osu_file_parser::osu_file::events::storyboard::cmds::*;
use osu_file_parser::osu_file::events::storyboard::sprites::*;
use osu_file_parser::osu_file::events::storyboard::types::*;
use osu_file_parser::osu_file::events::EventWithCommands;
use osu_file_parser::osu_file::*;

macro_rules! codec { ($t:ty, $not:expr, $acc:expr, $ex:expr) => { impl Codec for $t { const PRINTED_NOT: &'static str = $not; const ACCEPTS_NOT: &'static str = $acc; const EXAMPLES: &'static [&'static str] = &$ex; } } }
codec!(Parameter, " \t\r\n,:|\"'[]/_=$0123456789", " ,:|\r\n", ["H", "V", "A"]);
codec!(TriggerType, " \t\r\n,:|\"'[]/_=$", "", ["Passing", "Failing", "HitSound", "HitSoundDrumWhistle6"]);

/// the line `header,easing,rest` of a command, with a bound on its fields
fn any_command(header: &'static str, fields: usize) -> (u8, String) {
    let v = any_version();
    let ind = any_str_of("indentation", " _");
    let rest = any_str_not("fields", "\r\n");
    at_most(rest, ',', fields);
    bounded("the number of fields of a command line");
    (v, format!("{ind}{header},{rest}"))
}
/// an accepted command line prints to a line that is accepted as an equal command
fn survives(v: u8, s: &str) {
    if let Ok(Some(a)) = Command::from_str(s, v) {
        cover("accepted");
        let t = match a.to_string(v) { Some(t) => t, None => { ensure("printed in every version", false); return; } };
        match Command::from_str(&t, v) {
            Ok(Some(b)) => {
                ensure("the re-read command is equal", a == b);
                ensure("printing again gives the identical line", match b.to_string(v) { Some(u) => u == t, None => false });
            }
            _ => ensure("the printed line is accepted", false),
        }
    }
}
fn content(header: &'static str, fields: usize) {
    let (v, s) = any_command(header, fields);
    survives(v, &s);
}
/// the line of a command that takes `fields` fields when it has no continuing ones
fn single(header: &'static str, fields: usize) {
    let v = any_version();
    let ind = any_str_of("indentation", " _");
    let mut s = format!("{ind}{header}");
    for _ in 0..fields {
        let f = any_str_not("field", ",\r\n");
        s = format!("{s},{f}");
    }
    survives(v, &s);
}
pub fn leaf(k: u8, n: u32) -> Command {
    let t = n as i32;
    match k {
        0 => Command { start_time: Some(t), properties: CommandProperties::Loop { loop_count: n, commands: Vec::new() } },
        1 => Command { start_time: None, properties: CommandProperties::Trigger { trigger_type: TriggerType::Passing, end_time: None, group_number: Some(t), commands: Vec::new() } },
        _ => Command { start_time: Some(t), properties: CommandProperties::Parameter { easing: Easing::Linear, end_time: None, parameter: Parameter::ImageFlipVertical, continuing_parameters: Vec::new() } },
    }
}
pub fn sprite() -> Object {
    Object { layer: Layer::Background, origin: Origin::from(OriginType::TopLeft), position: Position::default(), object_type: ObjectType::Sprite(Sprite { filepath: FilePath::from("a") }), commands: Vec::new() }
}
crate::specs! {
    fn p07_parameter_codec() { codec_proof::<Parameter>() }

    fn p07_trigger_text() {
        bounded("trigger names made of at most three of eleven parts");
        let v = any_version();
        let part = |k: u8| match k { 1 => "All", 2 => "Normal", 3 => "Soft", 4 => "Drum", 5 => "Whistle", 6 => "Finish", 7 => "Clap", 8 => "7", 9 => "12", 10 => "Other", 11 => " ", _ => "" };
        let (a, b, c) = (any_u8("first"), any_u8("second"), any_u8("third"));
        assume(a <= 11 && b <= 11 && c <= 11);
        round_trip::<TriggerType>(&format!("HitSound{}{}{}", part(a), part(b), part(c)), v);
    }
    // ---- C10: the text of each command
    fn p10_fade() { content("F", 6) }
    fn p10_movex() { content("MX", 6) }
    fn p10_movey() { content("MY", 6) }
    fn p10_scale() { content("S", 6) }
    fn p10_rotate() { content("R", 6) }
    fn p10_move() { content("M", 7) }
    fn p10_vector() { content("V", 7) }
    fn p10_colour() { content("C", 8) }
    fn p10_parameter() {
        use_codec::<Parameter>();
        content("P", 6)
    }
    // the same without continuing fields
    fn p10_fade_single() { single("F", 4); }
    fn p10_movex_single() { single("MX", 4); }
    fn p10_movey_single() { single("MY", 4); }
    fn p10_scale_single() { single("S", 4); }
    fn p10_rotate_single() { single("R", 4); }
    fn p10_move_single() { single("M", 5); }
    fn p10_vector_single() { single("V", 5); }
    fn p10_colour_single() { single("C", 6); }
    fn p10_parameter_single() {
        use_codec::<Parameter>();
        single("P", 4);
    }
    // and with a second set of values
    fn p10_fade_double() { single("F", 5); }
    fn p10_movex_double() { single("MX", 5); }
    fn p10_movey_double() { single("MY", 5); }
    fn p10_scale_double() { single("S", 5); }
    fn p10_rotate_double() { single("R", 5); }
    fn p10_move_double() { single("M", 7); }
    fn p10_vector_double() { single("V", 7); }
    fn p10_colour_double() { single("C", 9); }
    fn p10_parameter_double() {
        use_codec::<Parameter>();
        single("P", 5);
    }
    fn p10_loop() {
        let v = any_version();
        let ind = any_str_of("indentation", " _");
        let rest = any_str_not("fields", "\r\n");
        survives(v, &format!("{ind}L,{rest}"));
    }
    fn p10_trigger() {
        use_codec::<TriggerType>();
        let v = any_version();
        let ind = any_str_of("indentation", " _");
        let rest = any_str_not("fields", "\r\n");
        survives(v, &format!("{ind}T,{rest}"));
    }
    // ---- C10: nesting
    fn p10_nesting() {
        bounded("three pushed commands of any kind and indentation");
        let v = any_version();
        let mut o = sprite();
        let mut text = match o.to_string(v) { Some(t) => t, None => { ensure("printed", false); return; } };
        // the indentation of the last accepted command and whether it can hold others
        let (mut depth, mut holds) = (0usize, true);
        for i in 0..3u32 {
            let n = match any_usize("indentation") { 1 => 1, 2 => 2, 3 => 3, n => n };
            let k = any_u8("kind");
            assume(k < 3);
            let c = leaf(k, i + 1);
            let s = match c.to_string(v) { Some(s) => s, None => { ensure("printed", false); return; } };
            let before = o.clone();
            let fits = n >= 1 && (n <= depth || (n == depth + 1 && holds));
            match o.try_push_cmd(c, n) {
                Ok(()) => {
                    cover("pushed");
                    ensure("a push that fits nowhere is refused", fits);
                    if !fits { return; }
                    text = format!("{text}\n{}{s}", " ".repeat(n));
                    depth = n;
                    holds = k < 2;
                }
                Err(_) => {
                    cover("refused");
                    ensure("a push that fits is accepted", !fits);
                    ensure("a refused push changes nothing", o == before);
                }
            }
            ensure("commands are printed in their order with their indentation", match o.to_string(v) { Some(t) => t == text, None => false });
        }
    }
    fn p10_nesting_deep() {
        bounded("six pushed commands that fit");
        let v = 14;
        let mut o = sprite();
        let mut text = match o.to_string(v) { Some(t) => t, None => { ensure("printed", false); return; } };
        let (mut depth, mut holds) = (0usize, true);
        for i in 0..6u32 {
            let n = match any_usize("indentation") { 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, 6 => 6, n => n };
            assume(n >= 1 && (n <= depth || (n == depth + 1 && holds)));
            let k = if any_bool("container") { (i & 1) as u8 } else { 2 };
            let c = leaf(k, i + 1);
            let s = match c.to_string(v) { Some(s) => s, None => { ensure("printed", false); return; } };
            ensure("a push that fits is accepted", o.try_push_cmd(c, n).is_ok());
            text = format!("{text}\n{}{s}", " ".repeat(n));
            depth = n;
            holds = k < 2;
        }
        cover("pushed");
        ensure("commands are printed in their order with their indentation", match o.to_string(v) { Some(t) => t == text, None => false });
    }
    // the same for the lines of an events section, and for every event that takes commands
    fn p10_event_commands() {
        bounded("three command lines after an event");
        let v = any_version();
        let h = match any_u8("event") { 0 => "0,1,a.png", 1 => "1,1,a.avi", 2 => "4,0,1,a.png", 3 => "5,0,1,a.png", 4 => "6,1,0,a.wav,50", 5 => "Sprite,Pass,Centre,a.png,1,2", 6 => "Animation,Pass,Centre,a.png,1,2,3,4,LoopOnce", _ => { assume(false); "" } };
        let mut text = h.to_string();
        let (mut depth, mut holds, mut fits) = (0usize, true, true);
        for i in 0..3u32 {
            if !any_bool("another") { break; }
            let n = match any_u8("indentation") { 1 => 1, 2 => 2, 3 => 3, 4 => 4, _ => { assume(false); 0usize } };
            let k = match any_u8("kind") { 0 => 0, 1 => 1, 2 => 2, _ => { assume(false); 0u8 } };
            if !(n <= depth || (n == depth + 1 && holds)) { fits = false; }
            text = format!("{text}\n{}{}", " ".repeat(n), leaf(k, i + 1).to_string(v).unwrap());
            depth = n;
            holds = k < 2;
            if !fits { break; }
        }
        match events::Events::from_str(&text, v) {
            Ok(Some(e)) => {
                cover("accepted");
                ensure("commands that fit nowhere are refused", fits);
                ensure("one event holds all commands", e.0.len() == 1);
                ensure("events print with their commands in order", match e.to_string(v) { Some(t) => t == text, None => false });
            }
            Ok(None) => ensure("events exist in every version", false),
            Err(_) => { cover("refused"); ensure("commands that fit are accepted", !fits); }
        }
    }
}
