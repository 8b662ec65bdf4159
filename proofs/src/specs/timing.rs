//! timing points
use crate::ghost::*;
use crate::specs::codecs::*;
use osu_file_parser::osu_file::timingpoints::*;
use osu_file_parser::osu_file::*;
use rust_decimal::Decimal as Dec;

pub fn use_parts() {
    use_codec::<SampleSet>();
    use_codec::<SampleIndex>();
    use_codec::<Volume>();
    use_codec::<Effects>();
}
impl Codec for TimingPoint {
    const PRINTED_NOT: &'static str = "\r\n";
    const PRE_NOT: &'static str = "\r\n";
    const EXAMPLES: &'static [&'static str] = &["1,2,4,1,0,100,1,0"];
}
fn survives(lo: u8, hi: u8) {
    use_codec::<SampleSet>();
    use_codec::<SampleIndex>();
    use_codec::<Effects>();
    let v = any_u8("version");
    assume(v >= lo && v <= hi);
    if v > 4 { use_codec::<Volume>(); }
    let s = any_str_not("line", "\r\n");
    if let Ok(Some(a)) = TimingPoint::from_str(s, v) {
        cover("accepted");
        let t = match a.to_string(v) { Some(t) => t, None => { ensure("printed in every version", false); return; } };
        match TimingPoint::from_str(&t, v) {
            Ok(Some(b)) => {
                ensure("the re-read timing point is equal", a == b);
                ensure("printing again gives the identical line", match b.to_string(v) { Some(u) => u == t, None => false });
            }
            _ => ensure("the printed line is accepted", false),
        }
    }
}
crate::specs! {
    fn p02_timing_v3() { survives(3, 3) }
    fn p02_timing_v4() { survives(4, 4) }
    fn p02_timing_v5() { survives(5, 5) }
    fn p02_timing_v6() { survives(6, 14) }

    // ---- C03
    fn p03_timing() {
        use_parts();
        let v = any_u8("version");
        assume(v >= 3 && v <= 14);
        let (t, b) = (any_str_not("time", ",\r\n"), any_str_not("beat length", ",\r\n"));
        let m = any_i32("meter");
        let (ss, si, vo, ef) = (any_str_not("sample set", ",\r\n"), any_str_not("sample index", ",\r\n"), any_str_not("volume", ",\r\n"), any_str_not("effects", ",\r\n"));
        let un = any_bool("uninherited");
        let (Ok(Some(set)), Ok(Some(index)), Ok(Some(volume)), Ok(Some(effects))) = (SampleSet::from_str(ss, v), SampleIndex::from_str(si, v), Volume::from_str(vo, v), Effects::from_str(ef, v)) else { return };
        let u = if un { "1" } else { "0" };
        // how many of the optional trailing fields the line has
        let k = any_u8("fields");
        assume(k <= 3 && if v == 3 { k == 0 } else if v == 4 { k <= 1 } else { k >= 1 && (v == 5 || k != 2) });
        let line = if v == 3 { format!("{t},{b}") } else if k == 0 { format!("{t},{b},{m},{ss},{si}") } else if k == 1 { format!("{t},{b},{m},{ss},{si},{vo}") } else if k == 2 { format!("{t},{b},{m},{ss},{si},{vo},{u}") } else { format!("{t},{b},{m},{ss},{si},{vo},{u},{ef}") };
        match TimingPoint::from_str(&line, v) {
            Ok(Some(p)) => {
                cover("accepted");
                if v >= 5 { ensure("time", *p.time() == Decimal::from(t)); }
                if v >= 4 { ensure("meter", p.meter() == m); ensure("sample set", p.sample_set() == set); ensure("sample index", p.sample_index() == index); }
                if k >= 1 { ensure("volume", *p.volume() == volume); }
                if k >= 2 { ensure("uninherited", p.uninherited() == un); }
                ensure("effects", match p.effects() { Some(e) => k == 3 && *e == effects, None => k < 3 });
                if v >= 5 {
                    let head = format!("{},{},{m},{},{},{}", Decimal::from(t), Decimal::from(b), set.to_string(v).unwrap(), index.to_string(v).unwrap(), volume.to_string(v).unwrap());
                    let expected = if k == 1 { head } else if k == 2 { format!("{head},{u}") } else { format!("{head},{u},{}", effects.to_string(v).unwrap()) };
                    ensure("every field is printed in its place", match p.to_string(v) { Some(p) => p == expected, None => false });
                }
            }
            _ => ensure("a line of valid fields is accepted", false),
        }
    }
    fn p03_timing_new() {
        use_parts();
        let v = any_u8("version");
        assume(v >= 5 && v <= 14);
        let (ss, si, vo, ef) = (any_str_not("sample set", ",\r\n"), any_str_not("sample index", ",\r\n"), any_str_not("volume", ",\r\n"), any_str_not("effects", ",\r\n"));
        let (Ok(Some(set)), Ok(Some(index)), Ok(Some(volume)), Ok(Some(effects))) = (SampleSet::from_str(ss, v), SampleIndex::from_str(si, v), Volume::from_str(vo, v), Effects::from_str(ef, v)) else { return };
        let (t, m) = (any_i32("time"), any_i32("meter"));
        let b = any_dec("beat length");
        let p = TimingPoint::new_uninherited(t, Decimal::new(b), m, set, index, volume, effects);
        cover("built");
        let tail = format!("{m},{},{},{}", set.to_string(v).unwrap(), index.to_string(v).unwrap(), volume.to_string(v).unwrap());
        let e = effects.to_string(v).unwrap();
        ensure("an uninherited timing point prints its arguments in place", match p.to_string(v) { Some(s) => s == format!("{t},{b},{tail},1,{e}"), None => false });
        let mut q = p.clone();
        let (t2, m2, u2) = (any_i32("new time"), any_i32("new meter"), any_bool("new uninherited"));
        q.set_time(t2);
        ensure("set_time stores the time only", match q.to_string(v) { Some(s) => s == format!("{t2},{b},{tail},1,{e}"), None => false });
        q.set_meter(m2);
        q.set_uninherited(u2);
        ensure("set_meter and set_uninherited store their values only", match q.to_string(v) { Some(s) => s == format!("{t2},{b},{m2},{},{},{},{},{e}", set.to_string(v).unwrap(), index.to_string(v).unwrap(), volume.to_string(v).unwrap(), if u2 { 1 } else { 0 }), None => false });
        ensure("getters return what was set", *q.time() == Decimal::from(t2) && q.meter() == m2 && q.uninherited() == u2 && q.sample_set() == set && *q.volume() == volume && match q.effects() { Some(x) => *x == effects, None => false });
    }
    fn p03_timing_setters() {
        use_parts();
        let v = any_u8("version");
        assume(v >= 5 && v <= 14);
        let texts = |n: u8| (any_str_not(if n == 0 { "sample set" } else { "new sample set" }, ",\r\n"), any_str_not(if n == 0 { "sample index" } else { "new sample index" }, ",\r\n"), any_str_not(if n == 0 { "volume" } else { "new volume" }, ",\r\n"), any_str_not(if n == 0 { "effects" } else { "new effects" }, ",\r\n"));
        let ((a, b, c, d), (e, f, g, h)) = (texts(0), texts(1));
        let (Ok(Some(set)), Ok(Some(index)), Ok(Some(volume)), Ok(Some(effects))) = (SampleSet::from_str(a, v), SampleIndex::from_str(b, v), Volume::from_str(c, v), Effects::from_str(d, v)) else { return };
        let (Ok(Some(set2)), Ok(Some(index2)), Ok(Some(volume2)), Ok(Some(effects2))) = (SampleSet::from_str(e, v), SampleIndex::from_str(f, v), Volume::from_str(g, v), Effects::from_str(h, v)) else { return };
        let (t, m) = (any_i32("time"), any_i32("meter"));
        let len = any_dec("beat length");
        let mut p = TimingPoint::new_uninherited(t, Decimal::new(len), m, set, index, volume, effects);
        cover("built");
        let show = |s: &SampleSet, i: &SampleIndex, vo: &Volume, ef: &Effects| format!("{t},{len},{m},{},{},{},1,{}", s.to_string(v).unwrap(), i.to_string(v).unwrap(), vo.to_string(v).unwrap(), ef.to_string(v).unwrap());
        let is = |p: &TimingPoint, w: String| match p.to_string(v) { Some(s) => s == w, None => false };
        p.set_sample_set(set2);
        ensure("set_sample_set stores the sample set only", is(&p, show(&set2, &index, &volume, &effects)));
        *p.sample_index_mut() = index2;
        ensure("sample_index_mut gives the sample index", is(&p, show(&set2, &index2, &volume, &effects)));
        p.set_volume(volume2);
        ensure("set_volume stores the volume only", is(&p, show(&set2, &index2, &volume2, &effects)));
        *p.effects_mut() = Some(effects2);
        ensure("effects_mut gives the effects", is(&p, show(&set2, &index2, &volume2, &effects2)));
        ensure("getters return what was set", p.sample_set() == set2 && p.sample_index() == index2 && *p.volume() == volume2 && match p.effects() { Some(x) => *x == effects2, None => false });
    }
    fn p03_timing_inherited() {
        let v = any_u8("version");
        assume(v >= 5 && v <= 14);
        let (t, m) = (any_i32("time"), any_i32("meter"));
        let x = any_dec("velocity");
        assume(x > Dec::new(1, 2) && x < Dec::from(1000));
        let (Some(volume), Some(index), Some(effects)) = (Volume::new(any_i32("volume"), v), <SampleIndex as VersionedFrom<u32>>::from(1, v), <Effects as VersionedFrom<u32>>::from(0, v)) else { return };
        let p = TimingPoint::new_inherited(t, x, m, SampleSet::Soft, index, volume, effects);
        cover("built");
        ensure("an inherited timing point has its arguments", !p.uninherited() && *p.time() == Decimal::from(t) && p.meter() == m && p.sample_set() == SampleSet::Soft && p.sample_index() == index && *p.volume() == volume && match p.effects() { Some(e) => *e == effects, None => false });
        ensure("it has no bpm", p.calc_bpm().is_none());
    }
    // ---- C06
    fn p06_timing() {
        let v = any_version();
        let d = any_dec("time");
        let Some(w) = crate::specs::objects::shifted(d, v) else { return };
        assume(v > 4 || w - Dec::from(24) == d);
        let line = if v == 3 { format!("{d},500") } else if v == 4 { format!("{d},500,4,1,0") } else { format!("{d},500,4,1,0,100,1,0") };
        match TimingPoint::from_str(&line, v) {
            Ok(Some(p)) => {
                cover("accepted");
                ensure("the time is shifted in versions 3 and 4 only", *p.time() == Decimal::new(w));
                let u = any_u8("printed version");
                assume(u >= 3 && u <= 14 && (u <= 4) == (v <= 4));
                ensure("printing subtracts the same amount", match p.to_string(u) { Some(s) => match s.split(',').next() { Some(f) => f == d.to_string(), None => false }, None => false });
            }
            _ => ensure("accepted", false),
        }
    }
    // ---- C08
    fn p08_effects() {
        let v = any_version();
        let n = any_i64("number");
        assume(n >= 0 && n <= 0xffff_ffff);
        let n = n as u32;
        let Some(mut e) = <Effects as VersionedFrom<u32>>::from(n, v) else { ensure("every number is accepted", false); return };
        cover("number");
        let num = |e: Effects| <u32 as VersionedFrom<Effects>>::from(e, v) ;
        ensure("kiai is bit 0", e.kiai_time_enabled() == (n & 1 == 1));
        ensure("the omitted barline is bit 3", e.no_first_barline_in_taiko_mania() == (n & 8 == 8));
        ensure("the number is kept", num(e) == Some(n));
        ensure("the number is printed", match e.to_string(v) { Some(s) => s == n.to_string(), None => false });
        let b = any_bool("value");
        let mut f = e;
        f.set_kiai_time_enabled(b);
        ensure("setting kiai changes bit 0 only", num(f) == Some(if b { n | 1 } else { n & !1 }));
        f = e;
        f.set_no_first_barline_in_taiko_mania(b);
        ensure("setting the barline changes bit 3 only", num(f) == Some(if b { n | 8 } else { n & !8 }));
        e.clear_unused_bits();
        ensure("clearing keeps bits 0 and 3", num(e) == Some(n & 9));
        let (p, q) = (any_bool("kiai"), any_bool("barline"));
        ensure("a new value has the bits of its arguments", num(Effects::new(p, q)) == Some(if p { 1 } else { 0 } | if q { 8 } else { 0 }));
    }
    fn p08_hitsound() {
        use hitobjects::HitSound;
        let v = any_version();
        let n = any_u8("number");
        let Some(h) = <HitSound as VersionedFrom<u8>>::from(n, v) else { ensure("every number is accepted", false); return };
        cover("number");
        let num = |h: &HitSound| match h.to_string(v) { Some(s) => match s.parse::<u8>() { Ok(k) => k, Err(_) => 255 }, None => 255 };
        ensure("whistle, finish and clap are bits 1, 2 and 3", h.whistle() == (n & 2 == 2) && h.finish() == (n & 4 == 4) && h.clap() == (n & 8 == 8));
        ensure("normal is bit 0, and holds when no bit is set", h.normal() == (n & 1 == 1 || n & 15 == 0));
        ensure("the printed number has exactly the four bits", num(&h) == n & 15);
        let b = any_bool("value");
        let mut g = h;
        g.set_normal(b);
        ensure("setting normal changes bit 0 only", num(&g) == if b { (n & 15) | 1 } else { n & 14 });
        g = h;
        g.set_whistle(b);
        ensure("setting whistle changes bit 1 only", num(&g) == if b { (n & 15) | 2 } else { n & 13 });
        g = h;
        g.set_finish(b);
        ensure("setting finish changes bit 2 only", num(&g) == if b { (n & 15) | 4 } else { n & 11 });
        g = h;
        g.set_clap(b);
        ensure("setting clap changes bit 3 only", num(&g) == if b { (n & 15) | 8 } else { n & 7 });
        let (p, q, r, s) = (any_bool("normal"), any_bool("whistle"), any_bool("finish"), any_bool("clap"));
        ensure("a new value has the bits of its arguments", num(&HitSound::new(p, q, r, s)) == (p as u8) | (q as u8) << 1 | (r as u8) << 2 | (s as u8) << 3);
    }
}
