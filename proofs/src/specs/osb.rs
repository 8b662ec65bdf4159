//! storyboard files and variables
use crate::ghost::*;
use crate::specs::codecs::any_version;
use crate::specs::commands::leaf;
use crate::specs::files::*;
use osu_file_parser::osu_file::events::Events;
use osu_file_parser::osu_file::osb::{Osb, ParseVariableError, Variable};
use osu_file_parser::osu_file::*;

fn some_name(label: &str) -> &'static str {
    bounded("variable names from a list where patterns are searched for");
    match any_u8(label) { 0 => "a", 1 => "speed", 2 => "1", 3 => "x y", 4 => "", _ => { assume(false); "" } }
}
fn some_value(label: &str) -> &'static str {
    match any_u8(label) { 0 => "1", 1 => "12", 2 => "a", 3 => "0,12", 4 => "speed", 5 => ",", 6 => "", _ => { assume(false); "" } }
}
fn variable(name: &str, value: &str) -> Variable { Variable { name: name.to_string(), value: value.to_string() } }
fn apart(n: &str, m: &str) -> bool { !n.starts_with(m) && !m.starts_with(n) }
fn same_events(x: Result<Option<Events>, types::Error<events::ParseError>>, y: Result<Option<Events>, types::Error<events::ParseError>>) {
    match (x, y) {
        (Ok(x), Ok(y)) => { cover("accepted"); ensure("a variable is read as its value", x == y) }
        (Err(x), Err(y)) => { cover("refused"); ensure("a variable is read as its value", x.line_index() == y.line_index()) }
        _ => ensure("a variable is read as its value", false),
    }
}
crate::specs! {
    fn p13_variable() {
        let v = any_version();
        let s = any_str_not("text", "");
        match Variable::from_str(s, v) {
            Ok(Some(x)) => {
                cover("accepted");
                ensure("a variable begins with $", s.starts_with('$'));
                ensure("a variable prints as it was read", match x.to_string(v) { Some(t) => t == s, None => false });
                ensure("the name ends at the first =", !x.name.contains('='));
                ensure("re-read", match Variable::from_str(&x.to_string(v).unwrap(), v) { Ok(Some(y)) => y == x, _ => false });
            }
            Ok(None) => ensure("variables exist", false),
            Err(_) => { cover("refused"); ensure("what looks like a variable is one", !s.starts_with('$') || !s.contains('=') || s.find('\n').is_some()); }
        }
    }
    fn p13_variable_fields() {
        let v = any_version();
        let n = any_str_not("name", "=\n\r");
        let x = any_str_not("value", "\n\r");
        match Variable::from_str(&format!("${n}={x}"), v) {
            Ok(Some(y)) => { cover("accepted"); ensure("name", y.name == n); ensure("value", y.value == x); }
            _ => ensure("a variable is accepted", false),
        }
        if n.is_empty() { cover("no name"); } else { assume(!first_in(n, "$")); }
        match Variable::from_str(&format!("{n}={x}"), v) { Err(e) => ensure("a variable begins with $", matches!(e, ParseVariableError::MissingHeader)), Ok(_) => ensure("a variable begins with $", false) }
        match Variable::from_str(&format!("${n}"), v) { Err(e) => ensure("a variable has a value", matches!(e, ParseVariableError::MissingEquals)), Ok(_) => ensure("a variable has a value", false) }
    }
    // reading: every occurrence of a name is its value
    fn p13_substitution() {
        let v = any_version();
        let (n, m) = (some_name("first name"), some_name("second name"));
        assume(apart(n, m));
        let (x, y) = (any_str_not("first value", "$\r\n"), any_str_not("second value", "$\r\n"));
        let (p, q, r) = (any_str_not("before", "$\r\n"), any_str_not("between", "$\r\n,"), any_str_not("after", "$\r\n,"));
        at_most(p, ',', 1);
        at_most(x, ',', 1);
        at_most(y, ',', 1);
        bounded("at most four fields");
        // the names end where they end
        for t in [q, r] { if t.is_empty() { cover("nothing"); } else { assume(!first_in(t, "a speed1xy")); } }
        let twice = any_bool("the same variable twice");
        let (k, z) = if twice { (n, x) } else { (m, y) };
        let vars = [variable(n, x), variable(m, y)];
        let head = "4,0,1,a.png";
        same_events(Events::from_str_variables(&format!("{head}\n L,{p}${n}{q}${k}{r}"), v, &vars), Events::from_str(&format!("{head}\n L,{p}{x}{q}{z}{r}"), v));
    }
    fn p13_undefined_name() {
        let v = any_version();
        let n = some_name("name");
        assume(!n.is_empty());
        let x = any_str_not("value", "$\r\n");
        let p = any_str_not("fields", "\r\n");
        assume(!p.contains(match n { "a" => "$a", "speed" => "$speed", "1" => "$1", _ => "$x y" }));
        same_events(Events::from_str_variables(&format!("4,0,1,a.png\n L,{p}"), v, &[variable(n, x)]), Events::from_str(&format!("4,0,1,a.png\n L,{p}"), v));
    }
    // other lines than commands have no variables
    fn p13_events_without_commands() {
        let v = any_version();
        let n = some_name("name");
        let x = any_str_not("value", "\r\n");
        let p = any_str_not("comment", "\r\n");
        let f = any_str_not("file", "\r\n,");
        let text = format!("//{p}\n0,1,{f}");
        same_events(Events::from_str_variables(&text, v, &[variable(n, x)]), Events::from_str(&text, v));
    }
    // a storyboard file is its variables and its events
    fn p13_file() {
        let (n, m) = (any_str_not("first name", "=\r\n"), any_str_not("second name", "=\r\n"));
        let (x, y) = (any_str_not("first value", "\r\n"), any_str_not("second value", "\r\n"));
        let p = any_str_not("comment", "\r\n");
        let text = format!("[Variables]\n${n}={x}\n${m}={y}\n\n[Events]\n//{p}");
        match Osb::from_str(&text, 14) {
            Ok(Some(o)) => {
                cover("accepted");
                let want = vec![variable(n, x), variable(m, y)];
                ensure("variables in order with their names and values", match &o.variables { Some(w) => *w == want, None => false });
                ensure("events", match &o.events { Some(e) => match Events::from_str(&format!("//{p}"), 14) { Ok(Some(f)) => *e == f, _ => false }, None => false });
                ensure("printed as it was read", match o.to_string(14) { Some(t) => t == text, None => false });
            }
            _ => ensure("a storyboard file is accepted", false),
        }
    }
    fn p13_file_command() {
        let n = some_name("name");
        let x = any_str_not("value", "\r\n$");
        let (p, q) = (any_str_not("before", "\r\n$,"), any_str_not("after", "\r\n$,"));
        let event = "Sprite,Pass,Centre,a.png,1,2";
        let r = Osb::from_str(&format!("[Variables]\n${n}={x}\n[Events]\n{event}\n L,{p}${n}{q}"), 14);
        let e = Events::from_str(&format!("{event}\n L,{p}{x}{q}"), 14);
        match (r, e) {
            (Ok(Some(o)), Ok(e)) => { cover("accepted"); ensure("the events of the file use its variables", o.events == e); ensure("variables", o.variables == Some(vec![variable(n, x)])); }
            (Err(_), Err(_)) => cover("refused"),
            _ => ensure("the events of the file use its variables", false),
        }
    }
    fn p13_parts() {
        let (hv, he) = (any_bool("variables"), any_bool("events"));
        let x = any_str_not("value", "\r\n");
        let p = any_str_not("comment", "\r\n");
        let text = format!("{}{}", if hv { format!("[Variables]\n$n={x}\n") } else { String::new() }, if he { format!("[Events]\n//{p}\n") } else { String::new() });
        match Osb::from_str(&text, 14) {
            Ok(Some(o)) => {
                cover("accepted");
                ensure("parts that are absent stay absent", o.variables.is_some() == hv && o.events.is_some() == he);
                if let Some(t) = o.to_string(14) { ensure("printing again", match Osb::from_str(&t, 14) { Ok(Some(q)) => q == o, _ => false }); } else { ensure("printed", false) }
            }
            _ => ensure("a storyboard file may lack parts", false),
        }
        ensure("a part stands once", Osb::from_str(&format!("{text}{text}"), 14).is_err() == (hv || he));
    }
    // writing: names stand for values only where they read back
    fn p13_round_trip() {
        bounded("two variables with names and values from a list, one command");
        let (n, m) = (some_name("first name"), some_name("second name"));
        assume(n != "x y" && m != "x y");
        let (x, y) = (some_value("first value"), some_value("second value"));
        assume(n != m);
        let k = any_u8("command");
        assume(k == 0 || k == 2);
        let t = match any_u8("number") { 0 => 1u32, 1 => 121, _ => { assume(false); 0 } };
        let Ok(Some(events)) = Events::from_str(&format!("4,0,1,a.png\n {}", leaf(k, t).to_string(14).unwrap()), 14) else { ensure("a command is accepted", false); return };
        let o = Osb { variables: Some(vec![variable(n, x), variable(m, y)]), events: Some(events) };
        cover("printed");
        match o.to_string(14) {
            Some(t) => match Osb::from_str(&t, 14) {
                Ok(Some(p)) => { ensure("the re-read storyboard is equal", o == p); ensure("printing again gives the same text", p.to_string(14) == Some(t)); }
                _ => ensure("the printed storyboard is accepted", false),
            },
            None => ensure("storyboards are printed", false),
        }
    }
    // attaching a storyboard to a beatmap
    fn p13_append() {
        use_sections();
        use_pure::<Osb>(14, &["[Events]\n//a"]);
        let v = any_version();
        let mut f = OsuFile::new(v);
        for n in ["General", "Events", "HitObjects"] {
            if any_bool(n) { let c = any_str_not("content", "\r"); assume(section_alone(&mut f, n, c, v).is_ok()); }
        }
        let (s, t) = (any_str_not("storyboard", ""), any_str_not("second storyboard", ""));
        for x in [s, t] {
            let mut want = f.clone();
            let alone = Osb::from_str(x, v);
            let r = f.append_osb(x);
            match alone {
                Ok(o) => { cover("accepted"); want.osb = o; ensure("a valid storyboard is attached", r.is_ok()); }
                Err(e) => { cover("refused"); ensure("an invalid storyboard is refused", match r { Err(g) => g.line_index() == e.line_index(), Ok(()) => false }); }
            }
            ensure("only the storyboard changes", f == want);
            ensure("the storyboard prints as itself", f.osb_to_string() == match &want.osb { Some(o) => o.to_string(v), None => None });
        }
    }
    fn p13_versions() {
        let v = any_u8("version");
        let s = any_str_not("comment", "\r\n");
        let text = format!("[Events]\n//{s}");
        match Osb::from_str(&text, v) {
            Ok(o) => { cover("read"); ensure("storyboard files exist from version 14 on", o.is_some() == (v >= 14)); }
            Err(_) => ensure("accepted", false),
        }
        let o = Osb { variables: None, events: None };
        ensure("storyboard files are written from version 14 on", o.to_string(v).is_some() == (v >= 14));
    }
    // C04
    fn p04_storyboard() {
        bounded("two variables, three event lines");
        let blank = match any_u8("blank lines") { 0 => "", 1 => "\n", 2 => "\n\n", _ => { assume(false); "" } };
        let (x, y) = (any_str_not("first variable", "\r\n"), any_str_not("second variable", "\r\n"));
        let (p, q) = (any_str_not("comment", "\r\n"), any_str_not("event", "\r\n"));
        assume(!first_in(x, " \t[") && !first_in(y, " \t["));
        if q.is_empty() { cover("no event"); } else { assume(!first_in(q, "[0123456VBSA _\t")); }
        let gap = match any_u8("blank lines between") { 0 => "", 1 => "\n", 2 => "\n\n", _ => { assume(false); "" } };
        let ok = |t: &str| t.trim().is_empty() || (t.starts_with('$') && t.contains('='));
        let blank_q = q.trim().is_empty();
        assume(!x.is_empty());
        let r = Osb::from_str(&format!("{blank}[Variables]\n{x}\n{y}\n{gap}[Events]\n//{p}\n\n{q}\n"), 14);
        let base = blank.len();
        match r {
            Ok(_) => { cover("accepted"); ensure("invalid lines are errors", ok(x) && ok(y) && (blank_q || q.starts_with("//"))); }
            Err(e) => {
                cover("refused");
                let want = if !ok(x) { base + 1 } else if !ok(y) { base + 2 } else { base + 6 + gap.len() };
                ensure("the error is on its line", e.line_index() == want);
            }
        }
    }
}
