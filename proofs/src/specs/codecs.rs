use crate::ghost::*;
use osu_file_parser::osu_file::*;
use osu_file_parser::osu_file as o;

pub fn any_version() -> u8 {
    let v = any_u8("version");
    assume(v >= 3 && v <= 14);
    v
}
/// printing what was parsed gives a text that parses to the same value
pub fn round_trip<T: VersionedFromStr + VersionedToString + PartialEq>(s: &str, v: u8) {
    if let Ok(Some(x)) = T::from_str(s, v) {
        if let Some(t) = x.to_string(v) {
            cover("printed");
            match T::from_str(&t, v) {
                Ok(Some(y)) => {
                    ensure("printed text parses back to the same value", x == y);
                    ensure("printed text is a fixed point", match y.to_string(v) { Some(u) => u == t, None => false });
                }
                _ => ensure("printed text is accepted", false),
            }
        }
    }
}
macro_rules! codec { ($t:ty, $not:expr, $acc:expr, $ex:expr) => { impl Codec for $t { const PRINTED_NOT: &'static str = $not; const ACCEPTS_NOT: &'static str = $acc; const EXAMPLES: &'static [&'static str] = &$ex; } } }
const NUMNOT: &str = " \t\r\n,:|\"'[]/_=$aAzZ";
codec!(hitobjects::HitSound, NUMNOT, ",:|", ["0", "2", "14"]);
codec!(hitobjects::SampleSet, NUMNOT, ",:|", ["0", "1", "2", "3"]);
codec!(hitobjects::SampleIndex, NUMNOT, ",:|", ["0", "1", "7"]);
codec!(hitobjects::EdgeSet, " \t\r\n,|\"'[]/_=$aAzZ", ",|", ["0:0", "1:2"]);
impl Codec for hitobjects::CurvePoint {
    const PRE_NOT: &'static str = ",|\r\n";
    const PRINTED_NOT: &'static str = ",|\r\n";
    const EXAMPLES: &'static [&'static str] = &["10:20", "a:b"];
}
codec!(hitobjects::CurveType, " \t\r\n,:|0123456789", ",:|", ["B", "L", "C", "P"]);
codec!(timingpoints::SampleSet, NUMNOT, ",:|", ["0", "1", "2", "3"]);
codec!(timingpoints::SampleIndex, NUMNOT, ",:|", ["0", "1", "7"]);
codec!(timingpoints::Volume, NUMNOT, ",:|", ["0", "50", "100"]);
codec!(timingpoints::Effects, NUMNOT, ",:|", ["0", "1", "8", "9"]);
impl Codec for hitobjects::HitSample {
    const PRINTED_NOT: &'static str = "";
    const FIRST_NOT: &'static str = " \t\r\n,:|";
    const FROM: u8 = 10;
    const EXACT: bool = false;
    const EXAMPLES: &'static [&'static str] = &["0:0:0:0:", "1:2:3:50:a.wav", "", "0:0:0:"];
    /// the parts of a hit sample that the text of a version carries
    fn same(a: &Self, b: &Self, v: u8) -> bool {
        (v < 10 || (a.normal_set == b.normal_set && a.addition_set == b.addition_set && a.index == b.index)) && (v < 12 || (a.volume == b.volume && a.filename == b.filename))
    }
}
crate::specs! {
    fn p07_hitsound() { codec_proof::<hitobjects::HitSound>() }
    fn p07_hsampleset() { codec_proof::<hitobjects::SampleSet>() }
    fn p07_sampleindex() { codec_proof::<hitobjects::SampleIndex>() }
    fn p07_edgeset() { codec_proof::<hitobjects::EdgeSet>() }
    fn p07_curvepoint() { codec_proof::<hitobjects::CurvePoint>() }
    fn p07_curvetype() { codec_proof::<hitobjects::CurveType>() }
    fn p07_tsampleset() { codec_proof::<timingpoints::SampleSet>() }
    fn p07_tindex() { codec_proof::<timingpoints::SampleIndex>() }
    fn p07_tvolume() { codec_proof::<timingpoints::Volume>() }
    fn p07_effects() { codec_proof::<timingpoints::Effects>() }
    fn p07_hitsample() {
        use_codec::<hitobjects::SampleSet>();
        use_codec::<hitobjects::SampleIndex>();
        codec_proof::<hitobjects::HitSample>()
    }
    fn p07_mode() { round_trip::<general::Mode>(any_str_not("text", ""), any_version()) }
    fn p07_countdown() { round_trip::<general::Countdown>(any_str_not("text", ""), any_version()) }
    fn p07_overlay() { round_trip::<general::OverlayPosition>(any_str_not("text", ""), any_version()) }
    fn p07_gsampleset() { round_trip::<general::SampleSet>(any_str_not("text", ""), any_version()) }
}
