//! values that no constructor or setter lets through
use crate::ghost::*;
use crate::specs::codecs::*;
use osu_file_parser::osu_file::events::audio_sample;
use osu_file_parser::osu_file::events::storyboard::cmds::{Colours, ContinuingFields};
use osu_file_parser::osu_file::events::storyboard::sprites::Sprite;
use osu_file_parser::osu_file::hitobjects::{ComboSkipCount, Volume};
use osu_file_parser::osu_file::*;

type Pair = (i32, Option<i32>);
type Triple = (u8, Option<u8>, Option<u8>);
fn any_pair() -> Pair {
    let a = any_i32("first");
    if any_bool("has a second") { (a, Some(any_i32("second"))) } else { (a, None) }
}
fn any_triple() -> Triple {
    let a = any_u8("red");
    let g = if any_bool("has a green") { Some(any_u8("green")) } else { None };
    let b = if any_bool("has a blue") { Some(any_u8("blue")) } else { None };
    (a, g, b)
}
fn any_pairs() -> Vec<Pair> {
    let mut v = Vec::new();
    for _ in 0..3 { if !any_bool("another field") { break; } v.push(any_pair()); }
    v
}
fn any_triples() -> Vec<Triple> {
    let mut v = Vec::new();
    for _ in 0..3 { if !any_bool("another field") { break; } v.push(any_triple()); }
    v
}
fn pairs_ok(v: &[Pair]) -> bool {
    let mut i = 0;
    while i < v.len() { if v[i].1.is_none() && i + 1 < v.len() { return false; } i += 1; }
    true
}
fn triple_ok(t: &Triple, last: bool) -> bool { if last { t.1.is_some() || t.2.is_none() } else { t.1.is_some() && t.2.is_some() } }
fn triples_ok(v: &[Triple]) -> bool {
    let mut i = 0;
    while i < v.len() { if !triple_ok(&v[i], i + 1 == v.len()) { return false; } i += 1; }
    true
}
crate::specs! {
    fn p09_combo_skip() {
        let v = any_version();
        let n = any_u8("count");
        match ComboSkipCount::new(n, v) {
            Ok(Some(c)) => { cover("accepted"); ensure("a combo skip count is at most 7 and stored as given", n <= 7 && c.get() == n); }
            Ok(None) => ensure("exists in every version", false),
            Err(_) => ensure("a combo skip count up to 7 is accepted", n > 7),
        }
        let start = any_u8("start");
        assume(start <= 7);
        if let Ok(Some(mut c)) = ComboSkipCount::new(start, v) {
            let m = any_u8("new count");
            match c.set(m, v) {
                Ok(()) => { cover("set"); ensure("set stores a count up to 7", m <= 7 && c.get() == m); }
                Err(_) => { cover("refused"); ensure("a refused count changes nothing", m > 7 && c.get() == start); }
            }
        }
    }
    fn p09_sample_volume() {
        let n = any_u8("volume");
        match Volume::new(Some(n)) {
            Ok(x) => { cover("accepted"); ensure("a hit sample volume is 1 to 100 and stored as given", n >= 1 && n <= 100 && match x.volume() { Some(k) => k == n, None => false } && !x.use_timing_point_volume()); }
            Err(_) => { cover("rejected"); ensure("1 to 100 is accepted", n == 0 || n > 100); }
        }
        match Volume::new(None) {
            Ok(x) => ensure("no volume means that of the timing point", x.volume().is_none() && x.use_timing_point_volume()),
            Err(_) => ensure("no volume is accepted", false),
        }
        let s = any_u8("start");
        assume(s >= 1 && s <= 100);
        if let Ok(mut x) = Volume::new(Some(s)) {
            let m = any_u8("new volume");
            match x.set_volume(m) {
                Ok(()) => { cover("set"); ensure("set stores 1 to 100", m >= 1 && m <= 100 && match x.volume() { Some(k) => k == m, None => false }); }
                Err(_) => { cover("refused"); ensure("a refused volume changes nothing", (m == 0 || m > 100) && match x.volume() { Some(k) => k == s, None => false }); }
            }
        }
        if let Ok(mut x) = Volume::new(Some(s)) {
            x.set_use_timing_point_volume();
            ensure("the volume of the timing point replaces an own volume", x.volume().is_none() && x.use_timing_point_volume());
        }
        if let Ok(mut x) = Volume::new(None) {
            let m = any_u8("first volume");
            match x.set_volume(m) {
                Ok(()) => { cover("set"); ensure("set stores 1 to 100", m >= 1 && m <= 100 && match x.volume() { Some(k) => k == m, None => false } && !x.use_timing_point_volume()); }
                Err(_) => { cover("refused"); ensure("a refused volume changes nothing", (m == 0 || m > 100) && x.volume().is_none() && x.use_timing_point_volume()); }
            }
        }
    }
    fn p09_audio_volume() {
        let v = any_version();
        let n = any_u8("volume");
        match audio_sample::Volume::new(n, v) {
            Ok(x) => { cover("accepted"); ensure("an audio sample volume is at most 100 and stored as given", n <= 100 && x.get() == n); }
            Err(_) => ensure("up to 100 is accepted", n > 100),
        }
        match <audio_sample::Volume as VersionedTryFrom<u8>>::try_from(n, v) {
            Ok(Some(x)) => ensure("converted as given", n <= 100 && x.get() == n),
            _ => ensure("up to 100 is converted", n > 100),
        }
        let s = any_u8("start");
        assume(s <= 100);
        if let Ok(mut x) = audio_sample::Volume::new(s, v) {
            let m = any_u8("new volume");
            match x.set(m, v) {
                Ok(()) => { cover("set"); ensure("set stores up to 100", m <= 100 && x.get() == m); }
                Err(_) => { cover("refused"); ensure("a refused volume changes nothing", m > 100 && x.get() == s); }
            }
        }
    }
    fn p09_parsed_volume() {
        use_codec::<hitobjects::SampleSet>();
        use_codec::<hitobjects::SampleIndex>();
        let v = any_version();
        let (n, f) = (any_str_not("volume", ":"), any_str_not("file", ":"));
        match hitobjects::HitSample::from_str(&format!("0:0:0:{n}:{f}"), v) {
            Ok(Some(h)) => {
                cover("accepted");
                let k = h.volume.volume();
                ensure("a hit sample's volume is none or 1 to 100", match k { Some(k) => k >= 1 && k <= 100, None => true });
                if let Ok(m) = n.parse::<u8>() { if v >= 12 { ensure("the volume is the written number", match k { Some(k) => k == m, None => m == 0 }); } }
            }
            Ok(None) => {}
            Err(_) => { cover("rejected"); ensure("a hit sample with a volume up to 100 is accepted", match n.parse::<u8>() { Ok(m) => m > 100, Err(_) => true }); }
        }
    }
    fn p09_pairs_new() {
        bounded("up to three continuing fields");
        let list = any_pairs();
        let ok = pairs_ok(&list);
        let start = (any_i32("x"), any_i32("y"));
        match ContinuingFields::new(start, list.clone()) {
            Ok(f) => { cover("accepted"); ensure("only the last field may lack its second value, and all are stored", ok && *f.start_values() == start && f.continuing_fields() == &list[..]); }
            Err(_) => { cover("rejected"); ensure("a list of the right shape is accepted", !ok); }
        }
    }
    fn p09_pairs_push() {
        bounded("up to three continuing fields");
        let list = any_pairs();
        let start = (any_i32("x"), any_i32("y"));
        if let Ok(mut f) = ContinuingFields::new(start, list.clone()) {
            let p = any_pair();
            f.push_continuing_fields(p);
            cover("pushed");
            let n = list.len();
            let got = f.continuing_fields();
            ensure("pushing keeps the shape", pairs_ok(got));
            ensure("the pushed field is last", got.len() == n + 1 && got[n] == p);
            let mut i = 0;
            while i < n {
                let second = match list[i].1 { Some(x) => x, None => if i == 0 { start.1 } else { match list[i - 1].1 { Some(x) => x, None => 0 } } };
                ensure("earlier fields are kept, an omitted second value is that of the field before", got[i] == (list[i].0, Some(second)));
                i += 1;
            }
            ensure("the start is kept", *f.start_values() == start);
        }
    }
    fn p09_pairs_set() {
        bounded("up to three continuing fields");
        let list = any_pairs();
        let start = (any_i32("x"), any_i32("y"));
        if let Ok(mut f) = ContinuingFields::new(start, list.clone()) {
            let k = match any_usize("index") { 0 => 0, 1 => 1, 2 => 2, k => k };
            let p = any_pair();
            let ok = k < list.len() && (p.1.is_some() || k + 1 == list.len());
            match f.set_continuing_fields(k, p) {
                Ok(()) => {
                    cover("set");
                    ensure("a field of the wrong shape or place is refused", ok);
                    if !ok { return; }
                    let mut e = list.clone();
                    e[k] = p;
                    ensure("set stores the field and nothing else", f.continuing_fields() == &e[..] && *f.start_values() == start);
                }
                Err(_) => {
                    cover("refused");
                    ensure("a field of the right shape and place is accepted", !ok);
                    ensure("a refused field changes nothing", f.continuing_fields() == &list[..] && *f.start_values() == start);
                }
            }
        }
    }
    fn p09_colours_new() {
        bounded("up to three continuing colours");
        let list = any_triples();
        let ok = triples_ok(&list);
        let start = (any_u8("r"), any_u8("g"), any_u8("b"));
        match Colours::new(start, list.clone()) {
            Ok(f) => { cover("accepted"); ensure("only the last colour may lack its last values, and all are stored", ok && *f.start_rgb() == start && f.continuing_fields() == &list[..]); }
            Err(_) => { cover("rejected"); ensure("a list of the right shape is accepted", !ok); }
        }
    }
    // what `new` refuses, a push must not build either (see known-findings.md)
    fn p09_colours_push_shape() {
        let start = (1, 2, 3);
        let p = (any_u8("red"), if any_bool("has green") { Some(4) } else { None }, if any_bool("has blue") { Some(5) } else { None });
        if let Ok(mut f) = Colours::new(start, vec![]) {
            f.push_continuing_rgbs(p);
            cover("pushed");
            ensure("a pushed colour has a shape that new accepts", Colours::new(start, f.continuing_fields().to_vec()).is_ok());
        }
    }
    fn p09_colours_push() {
        bounded("up to three continuing colours");
        let list = any_triples();
        let start = (any_u8("r"), any_u8("g"), any_u8("b"));
        if let Ok(mut f) = Colours::new(start, list.clone()) {
            let p = any_triple();
            f.push_continuing_rgbs(p);
            cover("pushed");
            let n = list.len();
            let got = f.continuing_fields();
            ensure("the pushed colour is last", got.len() == n + 1 && got[n] == p);
            let mut i = 0;
            while i < n {
                let before = if i == 0 { (start.1, start.2) } else { match (list[i - 1].1, list[i - 1].2) { (Some(g), Some(b)) => (g, b), _ => (0, 0) } };
                let e = (list[i].0, Some(match list[i].1 { Some(g) => g, None => before.0 }), Some(match list[i].2 { Some(b) => b, None => before.1 }));
                ensure("earlier colours are kept, omitted values are those of the colour before", got[i] == e);
                i += 1;
            }
            ensure("the start is kept", *f.start_rgb() == start);
        }
    }
    fn p09_colours_set() {
        bounded("up to three continuing colours");
        let list = any_triples();
        let start = (any_u8("r"), any_u8("g"), any_u8("b"));
        if let Ok(mut f) = Colours::new(start, list.clone()) {
            let k = match any_usize("index") { 0 => 0, 1 => 1, 2 => 2, k => k };
            let p = any_triple();
            let ok = k < list.len() && triple_ok(&p, k + 1 == list.len());
            match f.set_continuing_rgbs(k, p) {
                Ok(()) => {
                    cover("set");
                    ensure("a colour of the wrong shape or place is refused", ok);
                    if !ok { return; }
                    let mut e = list.clone();
                    e[k] = p;
                    ensure("set stores the colour and nothing else", f.continuing_fields() == &e[..] && *f.start_rgb() == start);
                }
                Err(_) => {
                    cover("refused");
                    ensure("a colour of the right shape and place is accepted", !ok);
                    ensure("a refused colour changes nothing", f.continuing_fields() == &list[..] && *f.start_rgb() == start);
                }
            }
        }
    }
}
#[allow(unused)]
type _S = Sprite;
