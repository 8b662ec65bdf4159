//! hit objects
use crate::ghost::*;
use crate::specs::codecs::*;
use osu_file_parser::osu_file::hitobjects::*;
use osu_file_parser::osu_file::*;
use rust_decimal::Decimal as Dec;


/// the hit sample of a line: the parts that the version writes
pub fn same_sample(a: &Option<HitSample>, b: &Option<HitSample>, v: u8) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => HitSample::same(a, b, v),
        (None, None) => true,
        _ => v < 10,
    }
}
pub fn same_object(a: &HitObject, b: &HitObject, v: u8) -> bool {
    a.position == b.position && a.time == b.time && a.new_combo == b.new_combo && a.combo_skip_count == b.combo_skip_count && a.hitsound == b.hitsound
        && a.obj_params == b.obj_params && same_sample(&a.hitsample, &b.hitsample, v)
}
impl Codec for HitObject {
    const PRINTED_NOT: &'static str = "\r\n";
    const PRE_NOT: &'static str = "\r\n";
    const EXACT: bool = false;
    const EXAMPLES: &'static [&'static str] = &["1,2,3,1,0,0:0:0:0:"];
    fn same(a: &Self, b: &Self, v: u8) -> bool { same_object(a, b, v) }
}
pub fn use_parts() {
    use_codec::<HitSound>();
    use_codec::<SampleSet>();
    use_codec::<SampleIndex>();
    use_codec::<CurveType>();
    use_codec::<EdgeSet>();
    use_codec::<HitSample>();
}
const CIRCLE: u8 = 0;
const SLIDER: u8 = 1;
const SPINNER: u8 = 2;
const HOLD: u8 = 3;
pub fn kind(o: &HitObject) -> u8 {
    match &o.obj_params { HitObjectParams::HitCircle => CIRCLE, HitObjectParams::Slider(_) => SLIDER, HitObjectParams::Spinner { .. } => SPINNER, _ => HOLD }
}
/// A hit object line: every text with at least four commas is such a line.
pub fn any_line(v_lo: u8, v_hi: u8) -> (u8, String, i32, &'static str, &'static str) {
    let v = any_u8("version");
    assume(v >= v_lo && v <= v_hi);
    let x = any_str_not("x", ",\r\n");
    let y = any_str_not("y", ",\r\n");
    let t = any_str_not("time", ",\r\n");
    let ty = any_str_not("type", ",\r\n");
    let rest = any_str_not("rest", "\r\n");
    let n: i32 = match ty.parse() { Ok(n) => n, Err(_) => { assume(false); 0 } };
    (v, format!("{x},{y},{t},{ty},{rest}"), n, x, y)
}
pub fn bits_of(k: u8, n: i32) -> bool {
    if n & 1 == 1 { return k == CIRCLE; }
    if n & 2 == 2 { return k == SLIDER; }
    if n & 8 == 8 { return k == SPINNER; }
    n & 128 == 128 && k == HOLD
}
/// print, read again, print again
fn survives(k: u8, lo: u8, hi: u8, pipes: usize) {
    use_parts();
    if lo > 3 { use_codec::<CurvePoint>(); }
    let (v, s, n, x, y) = any_line(lo, hi);
    assume(bits_of(k, n));
    if k == SLIDER { at_most(&s, '|', pipes); }
    // version 3 repeats the position of a slider as its first curve point
    if k == SLIDER && v == 3 { let sep = if pipes > 1 { ":|" } else { "|" }; assume(!has_char(x, sep) && !has_char(y, sep));; }
    if let Ok(Some(a)) = HitObject::from_str(&s, v) {
        ensure("the type bits decide the kind", kind(&a) == k);
        cover("accepted");
        let t = match a.to_string(v) { Some(t) => t, None => { ensure("printed in every version", false); return; } };
        match HitObject::from_str(&t, v) {
            Ok(Some(b)) => {
                ensure("the re-read hit object is equal", same_object(&a, &b, v));
                ensure("printing again gives the identical line", match b.to_string(v) { Some(u) => u == t, None => false });
            }
            _ => ensure("the printed line is accepted", false),
        }
    }
}
crate::specs! {
    // the lines that `any_line` leaves out are rejected
    fn p02_fields() {
        use_parts();
        let v = any_version();
        let s = any_str_not("line", "\r\n");
        at_most(s, ',', 3);
        cover("short line");
        ensure("a line with less than four commas is rejected", HitObject::from_str(s, v).is_err());
    }
    fn p02_type() {
        use_parts();
        let v = any_version();
        let x = any_str_not("x", ",\r\n");
        let y = any_str_not("y", ",\r\n");
        let t = any_str_not("time", ",\r\n");
        let ty = any_str_not("type", ",\r\n");
        let rest = any_str_not("rest", "\r\n");
        if let Ok(n) = ty.parse::<i32>() { assume(n & 0x8b == 0); }
        cover("no known type");
        ensure("a line without a known type is rejected", HitObject::from_str(&format!("{x},{y},{t},{ty},{rest}"), v).is_err());
    }
    fn p02_circle() { survives(CIRCLE, 3, 14, 0) }
    fn p02_spinner() { survives(SPINNER, 3, 14, 0) }
    fn p02_hold() { survives(HOLD, 3, 14, 0) }
    fn p02_slider_v3() { survives(SLIDER, 3, 3, 2) }
    // a version 3 slider whose x is text with a separator of curve points (see known-findings.md)
    fn p02_slider_v3_text() {
        let x = if any_bool("separator in x") { "1|2" } else { "1:2" };
        let s = format!("{x},1,0,2,0,B|1:1|5:6,1,1");
        if let Ok(Some(a)) = HitObject::from_str(&s, 3) {
            cover("accepted");
            let t = a.to_string(3).unwrap();
            match HitObject::from_str(&t, 3) {
                Ok(Some(b)) => ensure("the re-read version 3 slider is equal", same_object(&a, &b, 3)),
                _ => ensure("the printed version 3 line is accepted", false),
            }
        }
    }
    fn p02_slider_v3_colons() { survives(SLIDER, 3, 3, 1) }
    fn p02_slider_v4() { survives(SLIDER, 4, 4, 3) }
    fn p02_slider_v5() { survives(SLIDER, 5, 9, 3) }
    fn p02_slider_v10() { survives(SLIDER, 10, 14, 3) }

    // ---- C03: every field in its documented place
    fn p03_edge_set() {
        use_codec::<SampleSet>();
        let v = any_version();
        let (a, b) = (any_str_not("normal set", ",:|\r\n"), any_str_not("addition set", ",:|\r\n"));
        let (Ok(Some(n)), Ok(Some(d))) = (SampleSet::from_str(a, v), SampleSet::from_str(b, v)) else { return };
        match EdgeSet::from_str(&format!("{a}:{b}"), v) {
            Ok(Some(e)) => {
                cover("accepted");
                ensure("the first set is that of the normal sound", e.normal_set == n);
                ensure("the second set is that of the additions", e.addition_set == d);
                ensure("the sets are printed in their order", match e.to_string(v) { Some(t) => t == format!("{}:{}", n.to_string(v).unwrap(), d.to_string(v).unwrap()), None => false });
            }
            _ => ensure("two valid sets are accepted", false),
        }
    }
    fn p03_hit_sample() {
        use_codec::<SampleSet>();
        use_codec::<SampleIndex>();
        let v = any_version();
        let (a, b, i) = (any_str_not("normal set", ",:|\r\n"), any_str_not("addition set", ",:|\r\n"), any_str_not("index", ",:|\r\n"));
        let n = any_u8("volume");
        assume(n <= 100);
        let f = any_str_not("file", ":\r\n");
        if f.is_empty() { cover("no file"); }
        let (Ok(Some(x)), Ok(Some(y)), Ok(Some(z))) = (SampleSet::from_str(a, v), SampleSet::from_str(b, v), SampleIndex::from_str(i, v)) else { return };
        match HitSample::from_str(&format!("{a}:{b}:{i}:{n}:{f}"), v) {
            Ok(Some(h)) => {
                cover("accepted");
                ensure("the first part is the normal set", h.normal_set == x);
                ensure("the second part is the addition set", h.addition_set == y);
                ensure("the third part is the index", h.index == z);
                ensure("the fourth part is the volume, 0 for that of the timing point", if n == 0 { h.volume.use_timing_point_volume() } else { match h.volume.volume() { Some(k) => k == n, None => false } });
                ensure("the last part is the file", h.filename == if f.chars().all(|c| c == ' ' || c == '\t') { "" } else { f });
                let three = format!("{}:{}:{}", x.to_string(v).unwrap(), y.to_string(v).unwrap(), z.to_string(v).unwrap());
                let want = if v < 10 { None } else if v < 12 { Some(three) } else { Some(format!("{three}:{n}:{}", h.filename)) };
                ensure("the parts are printed in their order", h.to_string(v) == want);
            }
            _ => ensure("valid parts are accepted", false),
        }
    }
    fn p03_curve_point() {
        let v = any_version();
        let (x, y) = (any_str_not("x", ",:|\r\n"), any_str_not("y", ",:|\r\n"));
        match CurvePoint::from_str(&format!("{x}:{y}"), v) {
            Ok(Some(p)) => {
                cover("accepted");
                ensure("the first number is x", p.0.x == Decimal::from(x));
                ensure("the second number is y", p.0.y == Decimal::from(y));
                ensure("printed in order", match p.to_string(v) { Some(t) => t == format!("{}:{}", Decimal::from(x), Decimal::from(y)), None => false });
            }
            _ => ensure("a position is accepted", false),
        }
    }
    fn p03_circle() { fields(CIRCLE) }
    fn p03_spinner() { fields(SPINNER) }
    fn p03_hold() { fields(HOLD) }
    fn p03_slider() {
        use_parts();
        use_codec::<CurvePoint>();
        let v = any_u8("version");
        assume(v >= 5 && v <= 14);
        let (x, y, t, hs) = (any_str_not("x", ",\r\n"), any_str_not("y", ",\r\n"), any_str_not("time", ",\r\n"), any_str_not("hit sound", ",\r\n"));
        let n = any_i32("type");
        assume(n >= 0 && n < 128 && n & 3 == 2);
        let (ct, c1, c2) = (any_str_not("curve type", ",|\r\n"), any_str_not("curve point 1", ",|\r\n"), any_str_not("curve point 2", ",|\r\n"));
        let slides = any_i32("slides");
        let len = any_str_not("length", ",\r\n");
        let (e1, e2) = (any_str_not("edge sound 1", ",|\r\n"), any_str_not("edge sound 2", ",|\r\n"));
        let (d1, d2) = (any_str_not("edge set 1", ",|\r\n"), any_str_not("edge set 2", ",|\r\n"));
        let sm = any_str_not("hit sample", "\r\n");
        if sm.is_empty() { cover("empty sample"); }
    if sm.is_empty() { cover("empty sample"); }
        let (Ok(Some(h)), Ok(Some(k)), Ok(Some(p1)), Ok(Some(p2))) = (HitSound::from_str(hs, v), CurveType::from_str(ct, v), CurvePoint::from_str(c1, v), CurvePoint::from_str(c2, v)) else { return };
        let (Ok(Some(s1)), Ok(Some(s2)), Ok(Some(g1)), Ok(Some(g2))) = (HitSound::from_str(e1, v), HitSound::from_str(e2, v), EdgeSet::from_str(d1, v), EdgeSet::from_str(d2, v)) else { return };
        let Ok(Some(sample)) = HitSample::from_str(sm, v) else { return };
        let two = any_bool("two curve points");
        let points = if two { format!("{c1}|{c2}") } else { c1.to_string() };
        let line = format!("{x},{y},{t},{n},{hs},{ct}|{points},{slides},{len},{e1}|{e2},{d1}|{d2},{sm}");
        match HitObject::from_str(&line, v) {
            Ok(Some(o)) => {
                cover("slider");
                ensure("position", o.position.x == Decimal::from(x) && o.position.y == Decimal::from(y));
                ensure("time", o.time == Decimal::from(t));
                ensure("hit sound", o.hitsound == h);
                let mut params = SlideParams::new(k, vec![], slides, Decimal::from(len), vec![], vec![]);
                if let HitObjectParams::Slider(q) = &o.obj_params {
                    ensure("curve type", q.curve_type == k);
                    ensure("curve points", q.curve_points.len() == if two { 2 } else { 1 } && q.curve_points[0] == p1 && (!two || q.curve_points[1] == p2));
                    ensure("slides", q.slides == slides);
                    ensure("length", q.length == Decimal::from(len));
                    ensure("edge sounds", q.edge_sounds.len() == 2 && q.edge_sounds[0] == s1 && q.edge_sounds[1] == s2);
                    ensure("edge sets", q.edge_sets.len() == 2 && q.edge_sets[0] == g1 && q.edge_sets[1] == g2);
                    params.curve_points = q.curve_points.clone();
                    params.edge_sounds = q.edge_sounds.clone();
                    params.edge_sets = q.edge_sets.clone();
                } else { ensure("a slider", false); }
                ensure("hit sample", match &o.hitsample { Some(q) => HitSample::same(q, &sample, v), None => false });
                let n2 = 2 | (n & 0x74);
                let tail = match sample.to_string(v) { Some(s) => format!(",{s}"), None => String::new() };
                let pts = match (p1.to_string(v), p2.to_string(v)) { (Some(a), Some(b)) => if two { format!("{a}|{b}") } else { a }, _ => String::new() };
                let expected = format!("{},{},{},{n2},{},{}|{pts},{slides},{},{}|{},{}|{}{tail}", o.position.x, o.position.y, o.time, h.to_string(v).unwrap(), k.to_string(v).unwrap(), Decimal::from(len),
                    s1.to_string(v).unwrap(), s2.to_string(v).unwrap(), g1.to_string(v).unwrap(), g2.to_string(v).unwrap());
                ensure("every field is printed in its place", match o.to_string(v) { Some(p) => p == expected, None => false });
                // the same slider built from its parts
                let mut built = HitObject::hitcircle_default();
                built.position = o.position.clone();
                built.time = o.time.clone();
                built.new_combo = o.new_combo;
                built.combo_skip_count = o.combo_skip_count;
                built.hitsound = h;
                built.obj_params = HitObjectParams::Slider(params);
                built.hitsample = Some(sample);
                ensure("a slider built from the same parts prints the same line", match built.to_string(v) { Some(p) => p == expected, None => false });
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    // ---- C06: the time of the old versions
    fn p06_circle() { time_of(CIRCLE) }
    fn p06_slider() { time_of(SLIDER) }
    fn p06_spinner() { time_of(SPINNER) }
    fn p06_hold() { time_of(HOLD) }
    // ---- C08: bits of the type number
    fn p08_circle() { bits(CIRCLE) }
    fn p08_slider() { bits(SLIDER) }
    fn p08_spinner() { bits(SPINNER) }
    fn p08_hold() { bits(HOLD) }
    fn p08_built() {
        let v = any_version();
        let (c, skip) = (any_bool("new combo"), any_u8("skip"));
        let k = any_u8("kind");
        assume(k < 4 && k != SLIDER);
        let mut o = if k == CIRCLE { HitObject::hitcircle_default() } else if k == SPINNER { HitObject::spinner_default() } else { HitObject::osu_mania_hold_default() };
        o.new_combo = c;
        match ComboSkipCount::new(skip, v) {
            Ok(Some(q)) => o.combo_skip_count = q,
            _ => { ensure("a skip count of three bits is accepted", skip > 7); return; }
        }
        let n: i32 = (if k == CIRCLE { 1 } else if k == SPINNER { 8 } else { 128 }) | (if c { 4 } else { 0 }) | ((skip as i32) << 4);
        let o2 = HitObject::from_str(&o.to_string(v).unwrap(), v);
        cover("built");
        match o2 {
            Ok(Some(b)) => ensure("kind, new combo and skip count are read back", kind(&b) == k && b.new_combo == c && b.combo_skip_count.get() == skip),
            _ => ensure("the printed object is accepted", false),
        }
        ensure("the printed number has exactly the bits", match o.to_string(v) { Some(p) => has_type(&p, n), None => false });
    }
}
fn has_type(line: &str, n: i32) -> bool { match line.split(',').nth(3) { Some(f) => f == n.to_string(), None => false } }
/// the line of a kind: fixed x, y and hit sound, free type, time and end time
fn line_of(k: u8, t: &str, n: i32, end: &str) -> String {
    if k == CIRCLE { format!("1,2,{t},{n},0") } else if k == SLIDER { format!("1,2,{t},{n},0,B|3:4,1,5") } else if k == SPINNER { format!("1,2,{t},{n},0,{end}") } else { format!("1,2,{t},{n},0,{end}:") }
}
fn kind_bit(k: u8) -> i32 { if k == CIRCLE { 1 } else if k == SLIDER { 2 } else if k == SPINNER { 8 } else { 128 } }
fn bits(k: u8) {
    let v = any_version();
    let n = any_i32("type");
    assume(bits_of(k, n));
    match HitObject::from_str(&line_of(k, "3", n, "9"), v) {
        Ok(Some(o)) => {
            cover("accepted");
            ensure("kind", kind(&o) == k);
            ensure("new combo is bit 2", o.new_combo == (n & 4 == 4));
            ensure("the skip count is bits 4 to 6", o.combo_skip_count.get() as i32 == (n >> 4) & 7);
            ensure("the printed number has exactly the bits that hold", match o.to_string(v) { Some(p) => has_type(&p, kind_bit(k) | (n & 0x74)), None => false });
        }
        _ => ensure("every number with the kind's bit is accepted", false),
    }
}
/// what a time reads as
pub fn shifted(d: Dec, v: u8) -> Option<Dec> { if v <= 4 { d.checked_add(Dec::from(24)) } else { Some(d) } }
fn time_of(k: u8) {
    let v = any_version();
    let (d, e) = (any_dec("time"), any_dec("end time"));
    let (Some(w), Some(we)) = (shifted(d, v), shifted(e, v)) else { return };
    // numbers whose sum needs more than 28 digits are kept as text
    assume(v > 4 || (w - Dec::from(24) == d && we - Dec::from(24) == e));
    let line = line_of(k, &d.to_string(), kind_bit(k), &e.to_string());
    match HitObject::from_str(&line, v) {
        Ok(Some(o)) => {
            cover("accepted");
            ensure("the time is shifted in versions 3 and 4 only", o.time == Decimal::new(w));
            match &o.obj_params {
                HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time } => ensure("the end time is shifted in versions 3 and 4 only", *end_time == Decimal::new(we)),
                _ => {}
            }
            // printed with another version, the offset of that version is used
            let u = any_u8("printed version");
            assume(u >= 3 && u <= 14 && (u <= 4) == (v <= 4));
            let sp = |s: &str| match s.split(',').nth(2) { Some(f) => f == d.to_string(), None => false };
            let se = |s: &str| if k == SPINNER { match s.split(',').nth(5) { Some(f) => f == e.to_string(), None => false } } else if k == HOLD { match s.split(',').nth(5) { Some(f) => match f.split(':').next() { Some(g) => g == e.to_string(), None => false }, None => false } } else { true };
            match o.to_string(u) { Some(p) => { ensure("printing subtracts the same amount", sp(&p)); ensure("printing subtracts the same amount from the end time", u >= 10 && k == HOLD || se(&p)); } None => ensure("printed", false) }
        }
        _ => ensure("accepted", false),
    }
}
fn fields(k: u8) {
    use_parts();
    let v = any_u8("version");
    assume(v >= 5 && v <= 14);
    let (x, y, t, hs) = (any_str_not("x", ",\r\n"), any_str_not("y", ",\r\n"), any_str_not("time", ",\r\n"), any_str_not("hit sound", ",\r\n"));
    let n = any_i32("type");
    assume(n >= 0 && n < 256 && bits_of(k, n));
    let e = any_str_not("end time", if k == HOLD { ",:\r\n" } else { ",\r\n" });
    let sm = any_str_not("hit sample", "\r\n");
    if sm.is_empty() { cover("empty sample"); }
    let (Ok(Some(h)), Ok(Some(sample))) = (HitSound::from_str(hs, v), HitSample::from_str(sm, v)) else { return };
    let line = if k == CIRCLE { format!("{x},{y},{t},{n},{hs},{sm}") } else if k == SPINNER { format!("{x},{y},{t},{n},{hs},{e},{sm}") } else { format!("{x},{y},{t},{n},{hs},{e}:{sm}") };
    match HitObject::from_str(&line, v) {
        Ok(Some(o)) => {
            cover("accepted");
            ensure("position", o.position.x == Decimal::from(x) && o.position.y == Decimal::from(y));
            ensure("time", o.time == Decimal::from(t));
            ensure("hit sound", o.hitsound == h);
            ensure("hit sample", match &o.hitsample { Some(q) => HitSample::same(q, &sample, v), None => false });
            match &o.obj_params {
                HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time } => ensure("end time", *end_time == Decimal::from(e)),
                _ => {}
            }
            let n2 = kind_bit(k) | (n & 0x74);
            let head = format!("{},{},{},{n2},{}", Decimal::from(x), Decimal::from(y), Decimal::from(t), h.to_string(v).unwrap());
            let p = sample.to_string(v);
            let expected = match (k, p) {
                (CIRCLE, Some(p)) => format!("{head},{p}"),
                (CIRCLE, None) => head,
                (SPINNER, Some(p)) => format!("{head},{},{p}", Decimal::from(e)),
                (SPINNER, None) => format!("{head},{}", Decimal::from(e)),
                (_, p) => format!("{head},{}:{}", Decimal::from(e), p.unwrap_or_default()),
            };
            ensure("every field is printed in its place", match o.to_string(v) { Some(p) => p == expected, None => false });
        }
        _ => ensure("a line of valid fields is accepted", false),
    }
}
