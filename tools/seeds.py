HO='src/osu_file/hitobjects/mod.rs'; HOT='src/osu_file/hitobjects/types.rs'
TP='src/osu_file/timingpoints/mod.rs'; TPT='src/osu_file/timingpoints/types.rs'
EV='src/osu_file/events/mod.rs'; NE='src/osu_file/events/normal_event/mod.rs'
CM='src/osu_file/events/storyboard/cmds/mod.rs'; CT='src/osu_file/events/storyboard/cmds/types.rs'
SP='src/osu_file/events/storyboard/sprites.rs'; OF='src/osu_file/mod.rs'; OT='src/osu_file/types.rs'
OSB='src/osu_file/osb/mod.rs'; GT='src/osu_file/general/types.rs'; MA='src/helper/macros.rs'; PA='src/parsers.rs'
AS='src/osu_file/events/audio_sample/mod.rs'; CO='src/osu_file/colours/mod.rs'; COT='src/osu_file/colours/types.rs'
NT='src/osu_file/events/normal_event/types.rs'; ST='src/osu_file/events/storyboard/types.rs'
SEEDS=[
dict(id='c01-comment-slice', property='C01', needs='an events line whose second byte is inside a character, or of one byte',
 breaks='the comment check slices the line at byte 2 and panics on short lines and inside multi-byte characters',
 edits=[(EV,'''            if let Ok((_, comment)) = comment(line) {
                events.0.push(Event::Comment(comment.to_string()));
                continue;
            }
''','''            if let Some(rest) = line.get(2..) {
                if &line[..2] == "//" {
                    events.0.push(Event::Comment(rest.to_string()));
                    continue;
                }
            } else if line.len() > 1 {
                let (header, rest) = line.split_at(2);
                if header == "//" {
                    events.0.push(Event::Comment(rest.to_string()));
                    continue;
                }
            }
'''),(EV,'''        let mut comment = preceded::<_, _, _, nom::error::Error<_>, _, _>(tag("//"), rest);
''',''),(EV,'use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};','use nom::bytes::complete::tag;')],
 demo=r'''
fn main() {
    for line in ["\u{20ac}", "a\u{20ac}0,0", "//x", "/", "/\u{e9}"] {
        let _ = <Events as VersionedFromStr>::from_str(line, 14);
    }
}'''),
dict(id='c01-frame-stem', property='C01', needs='an animation whose file name has an extension that the stem repeats, e.g. a name made of an extension only',
 breaks='deriving the frame file names of a parsed animation unwraps the file stem, which a path without a file name does not have',
 edits=[(SP,'''        let mut file_name = filepath
            .file_name()
            .unwrap_or_default()
            .to_string_lossy()
            .to_string();
''','''        let mut file_name = filepath
            .file_name()
            .or_else(|| filepath.parent()?.file_name())
            .unwrap()
            .to_string_lossy()
            .to_string();
''')],
 demo=r'''
use osu_file_parser::events::storyboard::sprites::*;
fn main() {
    for name in ["a.png", "", "..", "a/.."] {
        let line = format!("Animation,Pass,Centre,{name},320,240,2,100,LoopForever");
        let o = <Object as VersionedFromStr>::from_str(&line, 14).unwrap().unwrap();
        if let ObjectType::Animation(a) = &o.object_type {
            assert_eq!(a.frame_file_names().len(), 2);
        }
    }
}'''),
dict(id='c02-v4-volume-zero', property='C02', needs='a version 4 timing point whose volume is 0',
 breaks='a muted timing point of version 4 is written without its volume and reads back with volume 100',
 edits=[(TP,'''            && self.volume != <Volume as VersionedFrom<Integer>>::from(100, version).unwrap()
''','''            && !matches!(self.volume.volume(), 0 | 100)
''')],
 demo=r'''
fn main() {
    let a = <TimingPoint as VersionedFromStr>::from_str("1000,300,4,1,2,0", 4).unwrap().unwrap();
    let s = VersionedToString::to_string(&a, 4).unwrap();
    let b = <TimingPoint as VersionedFromStr>::from_str(&s, 4).unwrap().unwrap();
    assert_eq!(a.volume().volume(), b.volume().volume(), "{s}");
}'''),
dict(id='c03-colour-trans-swap', property='C03', needs='a colour transformation whose green and blue differ',
 breaks='green and blue of a colour transformation are exchanged when reading and when printing, so print and re-parse agree while both fields are wrong',
 edits=[(NE,'''(start_time, red, green, blue)) = tuple((''','''(start_time, red, blue, green)) = tuple(('''),(NE,'''                self.green,
                self.blue
''','''                self.blue,
                self.green
''')],
 demo=r'''
fn main() {
    let c = <ColourTransformation as VersionedFromStr>::from_str("3,100,10,20,30", 13).unwrap().unwrap();
    assert_eq!((c.start_time, c.red, c.green, c.blue), (100, 10, 20, 30));
}'''),
dict(id='c03-edge-set-order', property='C03', needs='a slider with an edge set whose two sample sets differ',
 breaks='the sample sets of an edge are read and written in the opposite order',
 edits=[(HOT,'''        let (_, (normal_set, addition_set)) = tuple((
            terminated(''','''        let (_, (addition_set, normal_set)) = tuple((
            terminated('''),(HOT,'''            "{}:{}",
            self.normal_set.to_string(version).unwrap(),
            self.addition_set.to_string(version).unwrap()
''','''            "{}:{}",
            self.addition_set.to_string(version).unwrap(),
            self.normal_set.to_string(version).unwrap()
''')],
 demo=r'''
fn main() {
    let o = <HitObject as VersionedFromStr>::from_str("1,2,3,2,0,B|4:5,1,100,0|2,1:3|2:0,0:0:0:0:", 14).unwrap().unwrap();
    if let HitObjectParams::Slider(s) = &o.obj_params {
        assert_eq!(s.edge_sets[0].normal_set, osu_file_parser::hitobjects::SampleSet::NormalSet);
        assert_eq!(s.edge_sets[0].addition_set, osu_file_parser::hitobjects::SampleSet::DrumSet);
    } else { panic!() }
}'''),
dict(id='c04-key-blank', property='C04', needs='a key-value section with a blank line between its keys and an error after it',
 breaks='blank lines between the keys of a section are not counted, so a later error of the section names an earlier line',
 edits=[(MA,'''                    line_count += crate::parsers::newline_count(ws_2);
''','''                    line_count += usize::from(!ws_2.is_empty());
''')],
 demo=r'''
fn main() {
    let e = Difficulty::from_str("HPDrainRate:5\n\nCircleSize:x\nCircleSize:4", 14).unwrap_err();
    assert_eq!(e.line_index(), 3);
}'''),
dict(id='c04-osb-multi', property='C04', needs='a storyboard file in which a section has a body of several lines and a later section holds the error',
 breaks='the lines of the first section are counted without its last line break, so an error in the second section names the line before',
 edits=[(OSB,'''            line_number += newline_count(section);
''','''            line_number += section.trim_end().lines().count().saturating_sub(1);
''')],
 demo=r'''
fn main() {
    let mut f = OsuFile::new(14);
    let e = f.append_osb("[Variables]\n$a=1\n$b=2\n\n\n[Events]\nnonsense\n").unwrap_err();
    assert_eq!(e.line_index(), 6);
}'''),
dict(id='c05-mania-v9', property='C05', needs='a general section of version 9 with the mania mode',
 breaks='the mania mode is read in version 9 although it exists from version 10',
 edits=[(GT,'''            7..=9 if mode == Mode::Mania => None,''','''            7..=8 if mode == Mode::Mania => None,''')],
 demo=r'''
fn main() {
    for v in 3..=14 {
        let g = General::from_str("Mode: 3", v).unwrap().unwrap();
        assert_eq!(g.mode.is_some(), v >= 10, "version {v}");
    }
}'''),
dict(id='c06-audio-sample', property='C06', needs='an audio sample of a version 3 or 4 file',
 breaks='the time of an audio sample is shifted too when it is read and shifted back when it is written, so the text survives while the value is wrong',
 edits=[(AS,'''        Ok(Some(AudioSample {
            time,
''','''        Ok(Some(AudioSample {
            time: if version < 5 { Integer::saturating_add(time, 24) } else { time },
'''),(AS,'''            "Sample,{},{},{},{}",
            self.time,
''','''            "Sample,{},{},{},{}",
            if version < 5 { self.time.saturating_sub(24) } else { self.time },
''')],
 demo=r'''
fn main() {
    for v in 3..=14 {
        let b = <AudioSample as VersionedFromStr>::from_str("Sample,100,0,a.wav,70", v).unwrap().unwrap();
        assert_eq!(b.time, 100, "version {v}");
    }
}'''),
dict(id='c06-hold-v3', property='C06', needs='an osu!mania hold read in version 3',
 breaks='the end time of a hold is shifted in version 4 only while it is printed shifted back in both',
 edits=[(HO,'''            let end_time = context(
                ParseHitObjectError::InvalidEndTime.into(),
                map_res(take_until(":"), |s: &str| s.parse()),
            )
            .map(|mut t: Decimal| {
                if (3..=4).contains(&version) {''','''            let end_time = context(
                ParseHitObjectError::InvalidEndTime.into(),
                map_res(take_until(":"), |s: &str| s.parse()),
            )
            .map(|mut t: Decimal| {
                if version == 4 {''')],
 demo=r'''
fn main() {
    for v in 3..=14 {
        let o = <HitObject as VersionedFromStr>::from_str("1,2,100,128,0,200:", v).unwrap().unwrap();
        let s = VersionedToString::to_string(&o, v).unwrap();
        assert!(s.contains(",200:"), "version {v}: {s}");
    }
}'''),
dict(id='c07-easing', property='C07', needs='a command with easing 26 or 27',
 breaks='the numbers of the half and quarter elastic easings are exchanged when they are written',
 edits=[(ST,'''            Easing::ElasticHalfOut => Some(26),
            Easing::ElasticQuarterOut => Some(27),''','''            Easing::ElasticQuarterOut => Some(26),
            Easing::ElasticHalfOut => Some(27),''')],
 demo=r'''
use osu_file_parser::events::storyboard::types::*;
fn main() {
    for n in 0..40 {
        let e = <Easing as VersionedFrom<Integer>>::from(n, 14).unwrap();
        assert_eq!(VersionedToString::to_string(&e, 14).unwrap(), n.to_string());
    }
}'''),
dict(id='c07-trigger-number', property='C07', needs='a HitSound trigger with a custom sample set of two digits or more',
 breaks='digits of a trigger custom sample set are split, so a number of several digits is rejected although it was printed',
 edits=[(ST,'''                                if i != 0
                                    && (ch.is_uppercase() || (ch.is_numeric() && !last_numeric))''','''                                if i != 0
                                    && (ch.is_uppercase()
                                        || (ch.is_numeric() && !(last_numeric && builder.len() < 2)))''')],
 demo=r'''
use osu_file_parser::events::storyboard::types::*;
fn main() {
    for n in [1usize, 12, 123, 4567] {
        let t = TriggerType::HitSound { sample_set: None, additions_sample_set: None, addition: None, custom_sample_set: Some(n) };
        let s = VersionedToString::to_string(&t, 14).unwrap();
        assert_eq!(<TriggerType as VersionedFromStr>::from_str(&s, 14).ok().flatten(), Some(t), "{s}");
    }
}'''),
dict(id='c08-hold-combo', property='C08', needs='an osu!mania hold with a combo skip count',
 breaks='the combo skip count of a hold is not written into its type number',
 edits=[(HO,'''        bit_flag |= self.combo_skip_count.get() << 4;
''','''        if !matches!(self.obj_params, HitObjectParams::OsuManiaHold { .. }) {
            bit_flag |= self.combo_skip_count.get() << 4;
        }
''')],
 demo=r'''
fn main() {
    for c in 0..8u8 {
        let line = format!("1,2,3,{},0,9:", 128u8 + c * 16);
        let o = <HitObject as VersionedFromStr>::from_str(&line, 14).unwrap().unwrap();
        assert!(VersionedToString::to_string(&o, 14).unwrap().starts_with(&line));
    }
}'''),
dict(id='c08-kiai-clears', property='C08', needs='switching the bar line effect off on a timing point whose effects hold unused bits',
 breaks='switching the first bar line effect off also clears the bits that are not in use',
 edits=[(TPT,'''            self.0 &= !0b1000;
''','''            self.0 &= 0b0111;
''')],
 demo=r'''
fn main() {
    let mut e = <Effects as VersionedFrom<u32>>::from(0xff, 14).unwrap();
    e.set_no_first_barline_in_taiko_mania(false);
    assert_eq!(VersionedToString::to_string(&e, 14).unwrap(), 0xf7.to_string());
}'''),
dict(id='c09-volume-set', property='C09', needs='setting the volume of a hit sample to a value above 100',
 breaks='the setter stores the value before it checks the upper bound, so a rejected value stays',
 edits=[(HOT,'''        if volume == 0 {
            Err(VolumeSetError::VolumeTooLow)
        } else if volume > 100 {
            Err(VolumeSetError::VolumeTooHigh)
        } else {
            self.0 = Some(volume);
            Ok(())
        }
''','''        if volume == 0 {
            return Err(VolumeSetError::VolumeTooLow);
        }

        let previous = self.0.replace(volume);
        if volume > 100 {
            self.0 = previous.or(self.0.filter(|v| *v < 128));
            return Err(VolumeSetError::VolumeTooHigh);
        }

        Ok(())
''')],
 demo=r'''
fn main() {
    use osu_file_parser::hitobjects::Volume;
    let mut v = Volume::new(None).unwrap();
    assert!(v.set_volume(101).is_err());
    assert_eq!(v.volume(), None);
}'''),
dict(id='c09-colour-fields', property='C09', needs='building continuing colours of which an inner one has green but no blue',
 breaks='an inner colour without blue is accepted, so it prints as a shorter list that shifts all later values',
 edits=[(CT,'''                } else if blue.is_none() {
                    return Err(InvalidColourFieldOption::Blue);
                }
            }
            if green''','''                } else if blue.is_none() && i == 0 {
                    return Err(InvalidColourFieldOption::Blue);
                }
            }
            if green''')],
 demo=r'''
use osu_file_parser::events::storyboard::cmds::*;
fn main() {
    let c = vec![(1, Some(2), Some(3)), (4, Some(5), None), (7, Some(8), Some(9))];
    assert!(osu_file_parser::events::storyboard::cmds::Colours::new((0, 0, 0), c).is_err());
}'''),
dict(id='c10-indent-pop', property='C10', needs='a command tree in which two nested loops end at the same place and a command of an outer loop follows',
 breaks='after the end of several loops at once the indentation goes back by one level only',
 edits=[(EV,'''                                    indentation = last_indentation;
''','''                                    indentation = last_indentation.max(indentation - 1);
''')],
 demo=r'''
fn main() {
    let t = "Sprite,Pass,Centre,a,320,240\n L,0,2\n  L,0,3\n   L,0,4\n    F,0,0,1,1\n  F,0,0,1,0\n S,0,0,1,1";
    let e = <Events as VersionedFromStr>::from_str(t, 14).unwrap().unwrap();
    let s = VersionedToString::to_string(&e, 14).unwrap();
    assert_eq!(s, t);
}'''),
dict(id='c10-trigger-group', property='C10', needs='a trigger with a group number but without start and end time',
 breaks='a trigger that has a group number only is written with one comma too few, so the number reads back as an end time',
 edits=[(CM,'''                        None =>
                            if group_number.is_some() {
                                ",".to_string()
                            } else {
                                String::new()
                            },
                    },
                    group_number''','''                        None =>
                            if group_number.is_some() && self.start_time.is_some() {
                                ",".to_string()
                            } else {
                                String::new()
                            },
                    },
                    group_number''')],
 demo=r'''
use osu_file_parser::events::storyboard::cmds::*;
fn main() {
    let a = <Command as VersionedFromStr>::from_str(" T,Passing,,,5", 14).unwrap().unwrap();
    let s = VersionedToString::to_string(&a, 14).unwrap();
    assert_eq!(<Command as VersionedFromStr>::from_str(&s, 14).ok().flatten(), Some(a), "{s}");
}'''),
dict(id='c11-duplicate-apart', property='C11', needs='a key that is repeated with another key in between',
 breaks='only a key that directly follows itself counts as repeated; otherwise the later value silently wins',
 edits=[(MA,'''                    if parsed_fields.contains(&name) {''','''                    if parsed_fields.last() == Some(&name) {''')],
 demo=r'''
fn main() {
    assert!(Difficulty::from_str("HPDrainRate:5\nCircleSize:4\nHPDrainRate:6", 14).is_err());
    assert!("osu file format v14\n\n[Metadata]\nTitle:a\nArtist:b\nTitle:c\n".parse::<OsuFile>().is_err());
}'''),
dict(id='c12-duplicate-section', property='C12', needs='a section that is repeated with another one in between',
 breaks='only a section that directly follows itself counts as repeated; otherwise the later one silently wins',
 edits=[(OF,'''            if section_parsed.contains(&section_name) {''','''            if section_parsed.last() == Some(&section_name) {''')],
 demo=r'''
fn main() {
    assert!("osu file format v14\n\n[General]\nMode: 0\n\n[Metadata]\nTitle:a\n\n[General]\nMode: 1\n".parse::<OsuFile>().is_err());
}'''),
dict(id='c12-bracket-value', property='C12', needs='a section with a line that starts with a bracket after a carriage return line ending',
 breaks='a section also ends at a blank-prefixed bracket line, so text that belongs to one section starts another',
 edits=[(PA,'''    let section_until = alt((take_until("\\n["), rest));''','''    let section_until = alt((take_until("\\n["), take_until(" ["), rest));''')],
 demo=r'''
fn main() {
    let f = "osu file format v14\n\n[Metadata]\nTitle:a song [Pt. 1]\n".parse::<OsuFile>().unwrap();
    let m = Metadata::from_str("Title:a song [Pt. 1]", 14).unwrap();
    assert_eq!(f.metadata, m);
}'''),
dict(id='c13-reject-keeps', property='C13', needs='attaching a malformed storyboard file to a beatmap that already has one',
 breaks='a rejected storyboard file removes the storyboard that was attached before',
 edits=[(OF,'''        self.osb = Osb::from_str(s, self.version)?;
''','''        self.osb = None;
        self.osb = Osb::from_str(s, self.version)?;
''')],
 demo=r'''
fn main() {
    let mut f = OsuFile::new(14);
    f.append_osb("[Events]\nSprite,Pass,Centre,a,320,240\n").unwrap();
    let before = f.clone();
    assert!(f.append_osb("[Events]\nnonsense\n").is_err());
    assert_eq!(f, before);
}'''),
dict(id='c13-first-occurrence', property='C13', needs='a storyboard command in which a variable occurs twice',
 breaks='only the first occurrence of a variable in a command is replaced by its value',
 edits=[(EV,'''                                None => line.replace(&variable_full, &variable.value),
''','''                                None => line.replacen(&variable_full, &variable.value, 1),
''')],
 demo=r'''
fn main() {
    let mut f = OsuFile::new(14);
    f.append_osb("[Variables]\n$x=7\n[Events]\nSprite,Pass,Centre,a,320,240\n M,0,0,10,$x,$x\n").unwrap();
    let mut g = OsuFile::new(14);
    g.append_osb("[Variables]\n$x=7\n[Events]\nSprite,Pass,Centre,a,320,240\n M,0,0,10,7,7\n").unwrap();
    assert_eq!(f.osb, g.osb);
}'''),
dict(id='c14-quote-one-side', property='C14', needs='a file name with a space and a quote at exactly one end',
 breaks='a name with a space counts as quoted when it has a quote at either end, so it prints without the quotes it needs',
 edits=[(OT,'''path.starts_with('"') && path.ends_with('"')''','''path.starts_with('"') || path.ends_with('"')''')],
 demo=r'''
fn main() {
    let p: FilePath = std::path::Path::new("\"a b").into();
    assert_eq!(VersionedToString::to_string(&p, 14).unwrap(), "\"\"a b\"");
}'''),
dict(id='c14-video-long', property='C14', needs='a video with the long event name and a position',
 breaks='a video with a position is written with the short event name even if it was read with the long one',
 edits=[(NE,'''            "{},{},{}{}",
            if self.short_hand {
                VIDEO_HEADER''','''            "{},{},{}{}",
            if self.short_hand || self.position.is_some() {
                VIDEO_HEADER''')],
 demo=r'''
fn main() {
    let t = "Video,10,a.avi,1,2";
    let v = <Video as VersionedFromStr>::from_str(t, 14).unwrap().unwrap();
    assert_eq!(VersionedToString::to_string(&v, 14).unwrap(), t);
}'''),
]
