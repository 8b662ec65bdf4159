//! Library functions that /repo may come to use: not part of any property, these contracts only
//! exercise the verifier's own contracts on the library (developer runs).
use crate::ghost::*;

fn text() -> &'static str { any_str_not("text", "\r\n") }
fn num() -> usize { let n = any_usize("n"); assume(n < 100000); n }
fn list(label: &str) -> Vec<i32> { let mut v = Vec::new(); for _ in 0..3 { if !any_bool(label) { break; } v.push(any_i32("item")); } v }
fn id<T>(x: T) -> T { x }
crate::specs! {
    fn p99_max() { let (a, b) = (num(), num()); cover("x"); ensure("max", std::cmp::max(a, b) == if a > b { a } else { b }); ensure("min", a.min(b) + a.max(b) == a + b); }
    fn p99_max_i32() { let (a, b) = (any_i32("a"), any_i32("b")); cover("x"); ensure("max", a.max(b) >= a && a.max(b) >= b && a.min(b) <= a); }
    fn p99_clamp() { let a = any_i32("a"); cover("x"); let c = a.clamp(1, 100); ensure("clamp", c >= 1 && c <= 100 && (a < 1 || a > 100 || c == a)); }
    fn p99_saturating() { let (a, b) = (any_u8("a"), any_u8("b")); cover("x"); ensure("sat", a.saturating_sub(b) <= a && a.saturating_add(b) >= a); }
    fn p99_saturating_i() { let a = any_i32("a"); cover("x"); ensure("sat", a.saturating_add(1) > i32::MIN); ensure("sat mul", a.saturating_mul(2) != 3); }
    fn p99_wrapping() { let (a, b) = (any_u8("a"), any_u8("b")); cover("x"); ensure("wrap", a.wrapping_add(b).wrapping_sub(b) == a); }
    fn p99_checked() { let (a, b) = (any_i32("a"), any_i32("b")); cover("x"); match a.checked_add(b) { Some(c) => ensure("sum", c - b == a), None => ensure("over", a.overflowing_add(b).1) } ensure("sub", a.checked_sub(a) == Some(0)); }
    fn p99_abs() { let a = any_i32("a"); cover("x"); ensure("abs", a.unsigned_abs() as i64 == (a as i64).abs()); ensure("wabs", a.wrapping_abs() >= 0 || a == i32::MIN); ensure("diff", a.abs_diff(a) == 0); ensure("sign", a.signum() <= 1); }
    fn p99_rem() { let a = any_i32("a"); cover("x"); ensure("rem", a.rem_euclid(4) >= 0 && a % 4 < 4 && a.div_euclid(2) <= a / 2); }
    fn p99_pow() { let a = any_u8("a"); assume(a < 4); cover("x"); ensure("pow", 2u32.pow(a as u32) == 1 << a); }
    fn p99_bits() { let a = any_u8("a"); cover("x"); ensure("bits", a.count_ones() <= 8 && a.leading_zeros() <= 8 && a.trailing_zeros() <= 8); }
    fn p99_bits2() { let a = any_u8("a"); cover("x"); ensure("rot", a.rotate_left(8) == a && !(!a) == a); }
    fn p99_cast() { let a = any_i32("a"); cover("x"); ensure("try", u8::try_from(a).is_ok() == (a >= 0 && a < 256)); ensure("from", i64::from(a) == a as i64); ensure("usize", usize::try_from(a).is_ok() == (a >= 0)); }
    fn p99_try_into() { let a = any_usize("a"); cover("x"); let r: Result<u8, _> = a.try_into(); ensure("try", r.is_ok() == (a < 256)); let q: Result<i32, _> = i32::try_from(a); ensure("i32", q.is_ok() == (a <= i32::MAX as usize)); }
    fn p99_range() { let a = any_u8("a"); cover("x"); ensure("in", (1..=100).contains(&a) == (a >= 1 && a <= 100)); ensure("in2", (3..14).contains(&a) == (a > 2 && a < 14)); ensure("m", matches!(a, 1..=3) == (1..=3).contains(&a)); }
    fn p99_ord() { let (a, b) = (any_i32("a"), any_i32("b")); cover("x"); ensure("cmp", a.cmp(&b) == b.cmp(&a).reverse()); ensure("pc", a.partial_cmp(&b).is_some()); ensure("then", a.cmp(&b).then(a.cmp(&b)).is_lt() == (a < b)); }
    fn p99_bool_then() { let a = any_bool("a"); cover("x"); ensure("then", a.then(|| 1).is_some() == a); ensure("then some", a.then_some(2) == if a { Some(2) } else { None }); ensure("xor", a ^ !a); ensure("from", u8::from(a) == a as u8); ensure("to", i32::from(a) == a as i32); }
    fn p99_opt() {
        let a = if any_bool("some") { Some(any_i32("a")) } else { None };
        cover("x");
        ensure("map_or", a.map_or(true, |x| x == a.unwrap_or(0)));
        ensure("map_or_else", a.map_or_else(|| 0, |x| x) == a.unwrap_or_default());
        ensure("and_then", a.and_then(|x| Some(x)) == a);
        ensure("filter", a.filter(|_| true) == a);
        ensure("or", a.or(Some(1)).is_some());
        ensure("or_else", a.or_else(|| Some(1)).is_some());
        ensure("xor", a.xor(None) == a);
        ensure("zip", a.zip(a).is_some() == a.is_some());
        ensure("ok_or", a.ok_or(1).is_ok() == a.is_some());
        ensure("is_some_and", a.is_some_and(|x| x > 3) == matches!(a, Some(x) if x > 3));
        ensure("is_none_or", a.is_none_or(|x| x > 3) == match a { Some(x) => x > 3, None => true });
        ensure("iter", a.iter().count() == a.is_some() as usize);
        ensure("flatten", Some(a).flatten() == a);
        let mut b = a; ensure("take", b.take() == a && b.is_none());
        let mut c = a; ensure("replace", c.replace(3) == a && c == Some(3));
        let mut d = a; ensure("get or", *d.get_or_insert(5) == a.unwrap_or(5));
        let mut e = a; ensure("insert", *e.insert(4) == 4);
        ensure("as_ref", a.as_ref().map(|x| *x) == a && a.as_ref().copied() == a && a.as_ref().cloned() == a);
        if let Some(x) = d.as_mut() { *x = 9; }
        ensure("as_mut", d == Some(9));
    }
    fn p99_opt_str() { let o: Option<String> = if any_bool("some") { Some(text().to_string()) } else { None }; cover("x"); ensure("deref", o.as_deref() == o.as_ref().map(|s| s.as_str())); ensure("eq", o.as_deref().unwrap_or("") == o.clone().unwrap_or_default()); }
    fn p99_res() {
        let a: Result<i32, i32> = if any_bool("ok") { Ok(any_i32("a")) } else { Err(any_i32("e")) };
        cover("x");
        ensure("ok", a.ok().is_some() == a.is_ok() && a.err().is_some() == a.is_err());
        ensure("map", a.map(|x| x).map_err(|e| e) == a);
        ensure("and_then", a.and_then(|x| Ok(x)) == a);
        ensure("or_else", a.or_else(|e| Err::<i32, i32>(e)) == a);
        ensure("unwrap_or", a.unwrap_or(3) == match a { Ok(x) => x, Err(_) => 3 });
        ensure("unwrap_or_else", a.unwrap_or_else(|e| e) == match a { Ok(x) | Err(x) => x });
        ensure("transpose", a.map(Some).transpose() == Some(a));
        ensure("iter", a.iter().count() == a.is_ok() as usize);
        ensure("is_ok_and", a.is_ok_and(|x| x == 3) == (a == Ok(3)));
        ensure("and", a.and(Ok::<i32, i32>(1)).is_ok() == a.is_ok());
        ensure("map_or", a.map_or(0, |x| x) == a.unwrap_or_default());
    }
    fn p99_vec_ops() {
        let v = list("more");
        cover("x");
        ensure("last", v.last().is_some() == !v.is_empty() && v.first().is_some() == !v.is_empty());
        let mut w = v.clone(); w.push(7);
        ensure("push", w.len() == v.len() + 1 && *w.last().unwrap() == 7);
        ensure("pop", w.pop() == Some(7) && w == v);
        w.insert(0, 5); ensure("insert", w[0] == 5 && w[1..] == v[..]);
        ensure("remove", w.remove(0) == 5 && w == v);
        w.truncate(1); ensure("truncate", w.len() <= 1);
        w.clear(); ensure("clear", w.is_empty());
        let mut x = v.clone(); x.reverse(); x.reverse(); ensure("reverse", x == v);
        let mut y = v.clone(); y.extend_from_slice(&v); ensure("extend", y.len() == 2 * v.len());
        let mut z = v.clone(); z.extend(v.iter()); ensure("extend2", z == y);
        let mut t = v.clone(); let mut u = v.clone(); t.append(&mut u); ensure("append", t == y && u.is_empty());
    }
    fn p99_vec_ops2() {
        let v = list("more");
        cover("x");
        let mut w = v.clone(); w.retain(|x| *x > 0); ensure("retain", w.iter().all(|x| *x > 0));
        let mut x = v.clone(); x.dedup(); ensure("dedup", x.len() <= v.len());
        if v.len() >= 2 { let mut y = v.clone(); y.swap(0, 1); ensure("swap", y[0] == v[1] && y[1] == v[0]); let mut z = v.clone(); let a = z.swap_remove(0); ensure("swap_remove", a == v[0]); }
        ensure("contains", v.contains(&3) == v.iter().any(|x| *x == 3));
        ensure("concat", [&v[..], &v[..]].concat().len() == 2 * v.len());
        ensure("starts", v.starts_with(&v));
    }
    fn p99_vec_ops3() {
        let v = list("more");
        cover("x");
        if let Some((a, b)) = v.split_first() { ensure("split", *a == v[0] && b.len() + 1 == v.len()); }
        if let Some((a, b)) = v.split_last() { ensure("split", *a == v[v.len() - 1] && b.len() + 1 == v.len()); }
        let mut n = 0; for w in v.windows(2) { if w[0] == w[1] { n += 1; } } ensure("windows", n <= 2);
        let mut m = 0; for c in v.chunks(2) { m += c.len(); } ensure("chunks", m == v.len());
        ensure("get", v.get(0).copied() == v.first().copied() && v.get(9).is_none() && v.get(..1).is_some() == !v.is_empty());
        let mut d = v.clone(); let e: Vec<i32> = d.drain(..).collect(); ensure("drain", d.is_empty() && e == v);
        let mut o = v.clone(); if o.len() > 1 { let t = o.split_off(1); ensure("split_off", o.len() == 1 && t.len() + 1 == v.len()); }
        let mut l = v.clone(); if let Some(x) = l.last_mut() { *x = 1; } if let Some(x) = l.first_mut() { *x = 2; } if let Some(x) = l.get_mut(0) { *x = 3; } ensure("mut", v.is_empty() || l[0] == 3);
        let (p, q) = v.split_at(v.len() / 2); ensure("split_at", p.len() + q.len() == v.len());
        let mut r = v.clone(); r.resize(5, 0); ensure("resize", r.len() == 5);
        let i = vec![0; 3]; ensure("vec", i.len() == 3);
    }
    fn p99_sort() { let v = list("more"); cover("x"); let mut w = v.clone(); w.sort(); ensure("sort", w.len() == v.len()); }
    fn p99_sort2() { let v = list("more"); cover("x"); let mut w = v.clone(); w.sort_by_key(|x| -(*x as i64)); ensure("sort", w.len() == v.len()); let mut u = v.clone(); u.sort_unstable(); u.sort_by(|a, b| a.cmp(b)); ensure("sort2", u.len() == v.len()); }
    fn p99_iter() {
        let v = list("more");
        cover("x");
        ensure("rev", v.iter().rev().rev().copied().collect::<Vec<_>>() == v);
        ensure("sum", v.iter().map(|x| (*x > 0) as usize).sum::<usize>() <= 3);
        ensure("max", v.iter().max().is_some() == !v.is_empty());
        ensure("min", v.iter().copied().min().is_some() == !v.is_empty());
        ensure("zip", v.iter().zip(v.iter()).all(|(a, b)| a == b));
        ensure("skip", v.iter().skip(1).count() == v.len().saturating_sub(1));
        ensure("take", v.iter().take(1).count() <= 1);
        ensure("chain", v.iter().chain(v.iter()).count() == 2 * v.len());
        ensure("enum", v.iter().enumerate().all(|(i, x)| v[i] == *x));
        ensure("pos", v.iter().position(|x| *x == 3).is_some() == v.contains(&3));
        ensure("last", v.iter().last() == v.last());
        ensure("fold", v.iter().fold(0, |a, _| a + 1) == v.len());
        ensure("filter", v.iter().filter(|x| **x > 2).count() <= v.len());
        ensure("find", v.iter().find(|x| **x == 4).is_none() == !v.contains(&4));
        ensure("eq", v.iter().eq(v.iter()));
    }
    fn p99_iter2() {
        let v = list("more");
        cover("x");
        let mut p = v.iter().peekable(); let mut n = 0; while let Some(_) = p.next() { if p.peek().is_some() { n += 1; } } ensure("peek", n == v.len().saturating_sub(1));
        ensure("flat", v.iter().flat_map(|x| [*x, *x]).count() == 2 * v.len());
        ensure("step", v.iter().step_by(2).count() <= 2);
        let (a, b): (Vec<i32>, Vec<i32>) = v.iter().partition(|x| **x > 0); ensure("part", a.len() + b.len() == v.len());
        ensure("take_while", v.iter().take_while(|x| **x > 0).all(|x| *x > 0));
        ensure("skip_while", v.iter().skip_while(|x| **x > 0).next().map_or(true, |x| *x <= 0));
        ensure("map_while", v.iter().map_while(|x| if *x > 0 { Some(*x) } else { None }).all(|x| x > 0));
        ensure("cyc", v.iter().cycle().take(2).count() <= 2);
        let r: Result<Vec<i32>, i32> = v.iter().map(|x| if *x > 0 { Ok(*x) } else { Err(*x) }).collect(); ensure("collect res", r.is_ok() == v.iter().all(|x| *x > 0));
        let o: Option<Vec<i32>> = v.iter().map(|x| if *x > 0 { Some(*x) } else { None }).collect(); ensure("collect opt", o.is_some() == r.is_ok());
        ensure("count", (0..v.len()).count() == v.len() && (0..=v.len()).last() == Some(v.len()));
        let mut sc = 0; for i in (0..v.len()).rev() { sc += i; } ensure("range rev", sc <= 3);
        ensure("min_by", v.iter().min_by_key(|x| **x).is_some() == !v.is_empty());
        ensure("reduce", v.iter().copied().reduce(|a, _| a) == v.first().copied());
        ensure("succ", std::iter::successors(Some(1), |x| if *x < 3 { Some(x + 1) } else { None }).count() == 3);
        ensure("once", std::iter::once(1).chain(std::iter::repeat(2).take(2)).count() == 3);
        ensure("unzip", v.iter().map(|x| (*x, *x)).unzip::<i32, i32, Vec<i32>, Vec<i32>>().0 == v);
        ensure("inspect", v.iter().inspect(|_| {}).count() == v.len());
        let mut it = v.iter(); it.by_ref().next(); ensure("by_ref", it.len() == v.len().saturating_sub(1));
        ensure("try_fold", v.iter().try_fold(0usize, |a, _| a.checked_add(1)) == Some(v.len()));
        ensure("product", (1..4).product::<i32>() == 6);
    }
    fn p99_str_split() {
        let s = text();
        at_most(s, ',', 2);
        cover("x");
        ensure("count", s.split(',').count() == s.matches(',').count() + 1);
        match s.split_once(',') { Some((a, b)) => ensure("once", format!("{a},{b}") == s && !a.contains(',')), None => ensure("none", !s.contains(',')) }
        match s.rsplit_once(',') { Some((a, b)) => ensure("ronce", format!("{a},{b}") == s && !b.contains(',')), None => ensure("none", !s.contains(',')) }
    }
    fn p99_str_splitn() { let s = text(); at_most(s, ',', 2); cover("x"); let mut i = s.splitn(2, ','); let a = i.next().unwrap(); match i.next() { Some(b) => ensure("splitn", format!("{a},{b}") == s), None => ensure("one", a == s) } }
    fn p99_str_rsplit() { let s = text(); at_most(s, ',', 2); cover("x"); ensure("rsplit", s.rsplit(',').next().is_some()); ensure("last", s.split(',').last().is_some()); ensure("rsplitn", s.rsplitn(2, ',').count() <= 2); }
    fn p99_str_split_term() { let s = any_str_not("text", "\r"); at_most(s, '\n', 2); cover("x"); ensure("term", s.split_terminator('\n').count() == s.lines().count()); ensure("incl", s.split_inclusive('\n').count() == s.lines().count()); ensure("lines", s.split('\n').count() == s.matches('\n').count() + 1); }
    fn p99_str_split_ws() { let s = text(); at_most(s, ' ', 2); cover("x"); ensure("ws", s.split_whitespace().all(|w| !w.is_empty())); }
    fn p99_str_split_fn() { let s = text(); at_most(s, ',', 2); at_most(s, '|', 1); cover("x"); ensure("fn", s.split(|c| c == ',' || c == '|').count() >= 1); ensure("arr", s.split([',', '|']).count() >= 1); ensure("slice", s.split(&[',', '|'][..]).count() >= 1); }
    fn p99_str_split_str() { let s = text(); at_most(s, ',', 2); cover("x"); ensure("str", s.split(",").count() == s.split(',').count()); }
    fn p99_str_trim() {
        let s = text();
        cover("x");
        ensure("trim", s.trim_start().trim_end() == s.trim());
        ensure("matches", s.trim_matches('"').len() <= s.len());
        ensure("start", !s.trim_start_matches(',').starts_with(','));
        ensure("end", !s.trim_end_matches(',').ends_with(','));
    }
    fn p99_str_trim_fn() { let s = text(); cover("x"); ensure("fn", !s.trim_start_matches(|c: char| c == ' ' || c == '_').starts_with('_')); ensure("arr", !s.trim_start_matches([' ', '_']).starts_with(' ')); ensure("sl", !s.trim_end_matches(&[' ', '_'][..]).ends_with(' ')); ensure("ws", s.trim_start_matches(char::is_whitespace) == s.trim_start()); }
    fn p99_str_trim_str() { let s = text(); cover("x"); ensure("s", !s.trim_start_matches("//").starts_with("//")); }
    fn p99_str_prefix() { let s = text(); cover("x"); match s.strip_prefix("//") { Some(r) => ensure("pre", format!("//{r}") == s), None => ensure("no", !s.starts_with("//")) } match s.strip_suffix(']') { Some(r) => ensure("suf", format!("{r}]") == s), None => ensure("no", !s.ends_with(']')) } }
    fn p99_str_find() { let s = text(); cover("x"); match s.find(':') { Some(i) => { ensure("find", !s[..i].contains(':') && s[i..].starts_with(':')); ensure("split", s.split_at(i).0 == &s[..i]); ensure("after", format!("{}:{}", &s[..i], &s[i + 1..]) == s) } None => ensure("no", !s.contains(':')) } }
    fn p99_str_rfind() { let s = text(); cover("x"); match s.rfind(':') { Some(i) => ensure("rfind", !s[i + 1..].contains(':')), None => ensure("no", !s.contains(':')) } }
    fn p99_str_find_str() { let s = text(); cover("x"); match s.find("//") { Some(i) => ensure("find", s[i..].starts_with("//")), None => ensure("no", !s.contains("//")) } }
    fn p99_str_find_fn() { let s = text(); cover("x"); match s.find(|c: char| c == ':' || c == ',') { Some(i) => ensure("find", !s[..i].contains(':')), None => ensure("no", !s.contains(':')) } ensure("c", s.contains(|c: char| c == ':') == s.contains(':')); ensure("d", s.contains([':', ',']) == (s.contains(':') || s.contains(','))); }
    fn p99_str_case() { let s = text(); cover("x"); ensure("ci", s.eq_ignore_ascii_case(s)); ensure("low", s.to_ascii_lowercase().len() == s.len()); }
    fn p99_str_lower() { let s = text(); cover("x"); ensure("low", s.to_lowercase() == s.to_lowercase()); ensure("up", s.to_uppercase().is_empty() == s.is_empty()); }
    fn p99_str_replace() { let s = text(); cover("x"); ensure("r", !s.replace(',', "").contains(',')); ensure("n", s.replacen(',', ",", 1) == s); }
    fn p99_str_replace2() { let s = text(); cover("x"); ensure("r", !s.replace('\\', "/").contains('\\')); }
    fn p99_str_chars() {
        let s = text();
        cover("x");
        ensure("next", s.chars().next().is_some() == !s.is_empty());
        ensure("last", s.chars().last() == s.chars().next_back());
        ensure("nth", s.chars().nth(0) == s.chars().next());
        ensure("any", s.chars().any(|c| c == ',') == s.contains(','));
        ensure("all", s.chars().all(|c| c != ',') == !s.contains(','));
    }
    fn p99_str_chars2() { let s = text(); cover("x"); ensure("count", s.chars().count() <= s.len()); ensure("rev", s.chars().rev().next() == s.chars().next_back()); ensure("filter", !s.chars().filter(|c| *c != ',').collect::<String>().contains(',')); }
    fn p99_str_chars3() { let s = text(); cover("x"); ensure("tw", s.chars().take_while(|c| *c == ' ').count() <= s.len()); ensure("sw", s.chars().skip_while(|c| *c == ' ').next() != Some(' ')); }
    fn p99_str_chars4() { let s = text(); cover("x"); let mut n = 0; for c in s.chars() { if c == ' ' || c == '_' { n += 1; } else { break; } } ensure("loop", n <= s.len()); }
    fn p99_str_peek() { let s = text(); cover("x"); let mut p = s.chars().peekable(); ensure("p", p.peek().is_some() == !s.is_empty()); if let Some(c) = p.next() { ensure("n", s.starts_with(c)); } }
    fn p99_str_char_indices() { let s = text(); cover("x"); ensure("ci", s.char_indices().next().map_or(true, |(i, _)| i == 0)); ensure("find", s.char_indices().find(|(_, c)| *c == ',').is_some() == s.contains(',')); }
    fn p99_str_char_pos() { let s = text(); cover("x"); ensure("pos", s.chars().position(|c| c == ',').is_some() == s.contains(',')); }
    fn p99_str_bytes() { let s = text(); cover("x"); ensure("b", s.as_bytes().len() == s.len() && s.bytes().next().is_some() == !s.is_empty()); ensure("fst", s.as_bytes().first().is_some() == !s.is_empty()); ensure("any", s.bytes().any(|b| b == b',') == s.contains(',')); }
    fn p99_str_get() { let s = text(); cover("x"); ensure("get", s.get(0..0) == Some("")); match s.get(1..) { Some(r) => ensure("rest", r.len() + 1 == s.len()), None => {} } ensure("none", s.get(..usize::MAX).is_none() || s.len() > 5); }
    fn p99_str_cmp() { let (s, t) = (text(), any_str_not("other", "\n")); cover("x"); ensure("eq", (s == t) == (t == s)); ensure("ne", (s != t) == !(s == t)); ensure("String", s.to_string() == *s && String::from(s) == s && s.to_owned() == s.to_string()); }
    fn p99_str_ord() { let (s, t) = (text(), any_str_not("other", "\n")); cover("x"); ensure("cmp", (s < t) == (t > s)); }
    fn p99_str_build() {
        let s = text();
        cover("x");
        let mut b = String::with_capacity(8);
        b.push_str(s); b.push(','); b += s; b.insert(0, '['); b.insert_str(0, "//"); b.extend(["a", "b"]);
        ensure("built", b == format!("//[{s},{s}ab"));
        ensure("pop", b.pop() == Some('b') && b.ends_with('a'));
        ensure("concat", [s, ",", s].concat() == format!("{s},{s}") && [s, s].join(",") == format!("{s},{s}"));
        ensure("plus", s.to_string() + "," + s == format!("{s},{s}"));
        ensure("repeat", ",".repeat(3) == ",,,");
        ensure("fmt", format!("{0}{1}{0}", s, 1) == format!("{s}1{s}") && format!("{:?}", 1) == "1");
        ensure("collect", vec![s, s].into_iter().collect::<String>() == format!("{s}{s}"));
        b.truncate(2); ensure("trunc", b == "//"); b.clear(); ensure("clear", b.is_empty());
    }
    fn p99_str_write() { use std::fmt::Write; let s = text(); cover("x"); let mut b = String::new(); write!(b, "{},", s).unwrap(); writeln!(b, "{}", 3).unwrap(); b.write_str("x").unwrap(); b.write_char('y').unwrap(); ensure("w", b == format!("{s},3\nxy")); }
    fn p99_str_remove() { let s = text(); cover("x"); if !s.is_empty() { let mut b = s.to_string(); let c = b.remove(0); ensure("rem", s.starts_with(c) && b.len() < s.len()); } }
    fn p99_str_retain() { let s = text(); cover("x"); let mut b = s.to_string(); b.retain(|c| c != ','); ensure("ret", !b.contains(',')); }
    fn p99_str_parse() { let s = text(); cover("x"); ensure("i", s.parse::<i32>().is_ok() == s.parse::<i64>().is_ok_and(|x| x >= i32::MIN as i64 && x <= i32::MAX as i64)); ensure("u16", s.parse::<u8>().is_err() || s.parse::<u16>().is_ok()); }
    fn p99_str_parse_bool() { let s = text(); cover("x"); ensure("b", s.parse::<bool>().is_ok() == (s == "true" || s == "false")); }
    fn p99_str_parse_char() { let s = text(); cover("x"); ensure("c", s.parse::<char>().is_ok() == (s.chars().count() == 1)); }
    fn p99_str_parse_f64() { let s = text(); cover("x"); ensure("f", s.parse::<f64>().is_ok() || s.parse::<i32>().is_err()); }
    fn p99_str_match() { let s = text(); cover("x"); let n = match s { "a" | "b" => 1, "" => 2, _ => 3 }; ensure("m", (n == 2) == s.is_empty()); ensure("is", matches!(s, "a" | "b") == (n == 1)); }
    fn p99_char() { let s = text(); assume(!s.is_empty()); let c = s.chars().next().unwrap(); cover("x"); ensure("digit", c.is_ascii_digit() == ('0'..='9').contains(&c)); ensure("ws", c.is_whitespace() || c != ' '); ensure("alpha", c.is_alphabetic() || !c.is_ascii_alphabetic()); ensure("d", c.to_digit(10).is_some() == c.is_ascii_digit()); ensure("len", c.len_utf8() >= 1); ensure("up", c.is_ascii_uppercase() == ('A'..='Z').contains(&c)); ensure("low", c.to_ascii_lowercase() != 'A'); ensure("n", c.is_numeric() || !c.is_ascii_digit()); ensure("s", c.to_string() == s[..c.len_utf8()]); }
    fn p99_char2() { let a = any_u8("a"); cover("x"); ensure("from", char::from(a) as u32 == a as u32); assume(a < 10); ensure("digit", char::from_digit(a as u32, 10) == Some((b'0' + a) as char)); }
    fn p99_cow() { use std::borrow::Cow; let s = text(); cover("x"); let c: Cow<str> = if s.is_empty() { Cow::Borrowed("e") } else { Cow::Owned(s.to_string()) }; ensure("c", !c.is_empty()); ensure("o", c.to_string() == c.into_owned()); }
    fn p99_box() { let a = any_i32("a"); cover("x"); let b = Box::new(a); ensure("b", *b == a); let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x ^ a); ensure("f", f(a) == 0); }
    fn p99_fnptr() { let a = any_i32("a"); cover("x"); let f: fn(i32) -> i32 = |x| x; ensure("f", f(a) == a); let g: &dyn Fn(i32) -> bool = &|x| x == a; ensure("g", g(a)); let h: [fn(i32) -> i32; 2] = [id, |x| x]; ensure("h", h.iter().all(|k| k(a) == a)); }
    fn p99_map() { use std::collections::HashMap; let s = text(); cover("x"); let mut m = HashMap::new(); m.insert("a", 1); m.insert("b", 2); ensure("get", m.get(s).is_some() == (s == "a" || s == "b")); }
    fn p99_set() { use std::collections::HashSet; let s = text(); cover("x"); let mut m = HashSet::new(); ensure("ins", m.insert(s)); ensure("again", !m.insert(s)); ensure("has", m.contains(s)); }
    fn p99_btree() { use std::collections::BTreeMap; let n = any_u8("n"); cover("x"); let mut m = BTreeMap::new(); m.insert(n, 1); ensure("get", m.get(&n) == Some(&1)); ensure("c", m.contains_key(&n)); }
    fn p99_deque() { use std::collections::VecDeque; let n = any_u8("n"); cover("x"); let mut m = VecDeque::new(); m.push_back(n); m.push_front(1); ensure("get", m.pop_front() == Some(1) && m.back() == Some(&n)); }
    fn p99_mem() { let s = text(); cover("x"); let mut a = s.to_string(); let b = std::mem::take(&mut a); ensure("take", a.is_empty() && b == s); let mut c = 1; ensure("rep", std::mem::replace(&mut c, 2) == 1 && c == 2); let mut d = 5; std::mem::swap(&mut c, &mut d); ensure("swap", c == 5 && d == 2); }
    fn p99_tuple() { let (a, b) = (any_i32("a"), any_i32("b")); cover("x"); ensure("eq", (a, b) == (a, b)); ensure("lt", ((a, b) < (a, b)) == false); ensure("arr", [a, b] == [a, b] && [a, b].contains(&a) && [a, b].iter().count() == 2); ensure("map", [a, b].map(|x| x) == [a, b]); }
    fn p99_rc() { use std::rc::Rc; let a = any_i32("a"); cover("x"); let r = Rc::new(a); let s = r.clone(); ensure("rc", *r == *s); }
    fn p99_cell() { use std::cell::{Cell, RefCell}; let a = any_i32("a"); cover("x"); let c = Cell::new(a); c.set(3); ensure("c", c.get() == 3); let r = RefCell::new(a); *r.borrow_mut() = 4; ensure("r", *r.borrow() == 4); }
    fn p99_slice_str() { let s = text(); cover("x"); let n = s.len() - s.trim_start().len(); ensure("sl", s[n..] == *s.trim_start()); }
    fn p99_while_let() { let s = text(); at_most(s, ',', 2); cover("x"); let mut r = s; let mut n = 0; while let Some((_, t)) = r.split_once(',') { r = t; n += 1; } ensure("n", n == s.matches(',').count()); }
    fn p99_labeled() { let v = list("more"); cover("x"); let mut n = 0; 'a: for x in &v { for y in &v { if x == y { n += 1; continue 'a; } } break 'a; } ensure("n", n == v.len()); }
    fn p99_dec() { use rust_decimal::Decimal; let (a, b) = (any_dec("a"), any_dec("b")); cover("x"); ensure("max", a.max(b) >= a); ensure("zero", a.is_zero() == (a == Decimal::ZERO)); ensure("neg", a.is_sign_negative() || a >= Decimal::ZERO); ensure("abs", a.abs() >= Decimal::ZERO); }
    fn p99_dec2() { use rust_decimal::Decimal; let a = any_i32("a"); cover("x"); let d = Decimal::from(a); ensure("ord", (d > Decimal::ONE) == (a > 1)); ensure("str", d.to_string() == a.to_string()); ensure("n", d.normalize() == d); }
    fn p99_dec3() { use rust_decimal::Decimal; let a = any_dec("a"); cover("x"); ensure("trunc", a.trunc() <= a || a < Decimal::ZERO); ensure("round", a.round() >= a.floor()); ensure("fract", a.fract() < Decimal::ONE); }
    fn p99_either() { use either::Either; let e: Either<i32, String> = if any_bool("l") { Either::Left(any_i32("a")) } else { Either::Right(text().into()) }; cover("x"); ensure("l", e.is_left() == e.as_ref().left().is_some()); ensure("e", e.either(|_| true, |_| true)); }
    fn p99_try_block() { let s = text(); cover("x"); let f = |t: &str| -> Result<i32, std::num::ParseIntError> { let x: i32 = t.trim().parse()?; Ok(x) }; ensure("t", f(s).is_ok() == s.trim().parse::<i32>().is_ok()); }
    fn p99_iter_rev_lines() { let s = any_str_not("text", "\r"); at_most(s, '\n', 2); cover("x"); ensure("rev", s.lines().rev().count() == s.lines().count()); ensure("sk", s.lines().skip(1).count() == s.lines().count().saturating_sub(1)); ensure("coll", s.lines().collect::<Vec<_>>().len() == s.lines().count()); let mut n = 0; for (i, l) in s.lines().enumerate().filter(|(_, l)| !l.trim().is_empty()) { n = i; let _ = l; } ensure("n", n <= 3); let mut p = s.lines().peekable(); while let Some(_) = p.next() { let _ = p.peek(); } }
    fn p99_map_join() { let v = list("more"); cover("x"); let t = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","); ensure("n", v.is_empty() == t.is_empty()); let u = v.iter().map(i32::to_string).collect::<Vec<String>>().join(","); ensure("eq", u == t); let w = v.iter().fold(String::new(), |mut a, x| { if !a.is_empty() { a.push(','); } a.push_str(&x.to_string()); a }); ensure("eq2", w == t); }
    fn p99_default() { #[derive(Default, PartialEq, Clone, Debug, PartialOrd, Eq, Ord, Hash, Copy)] struct A { a: i32, b: Option<u8> } cover("x"); let a = A { a: any_i32("a"), ..Default::default() }; ensure("d", a.b.is_none() && a == a.clone() && a <= a); }
    fn p99_collections() {
        let (a, b, c) = (any_str_not("a", "\r"), any_str_not("b", "\r"), any_u8("c"));
        let mut s = std::collections::HashSet::new();
        ensure("first is new", s.insert(a));
        ensure("second", s.insert(b) == (a != b));
        ensure("contains", s.contains(a) && s.contains(b));
        ensure("len", s.len() == if a == b { 1 } else { 2 });
        let mut m: std::collections::HashMap<String, u8> = std::collections::HashMap::new();
        m.insert(a.to_string(), c);
        ensure("get", m.get(a) == Some(&c));
        ensure("get other", m.get(b).is_some() == (a == b));
        ensure("old", m.insert(b.to_string(), 3) == if a == b { Some(c) } else { None });
        ensure("key", m.contains_key(b) && !m.is_empty());
        let t: std::collections::BTreeSet<u8> = [c, 1, 2].into_iter().collect();
        ensure("tree", t.contains(&c) && t.len() <= 3);
        let mut q = std::collections::VecDeque::new();
        q.push_back(c); q.push_back(7); q.push_front(1);
        ensure("front", q.pop_front() == Some(1) && q.pop_back() == Some(7) && q.pop_back() == Some(c) && q.pop_back().is_none());
        cover("end");
    }
    fn p99_counts() {
        let a = any_str_not("a", "\r");
        let n = a.chars().filter(|c| *c == '\n').count();
        ensure("chars", n == a.matches('\n').count());
        ensure("bytes", n == a.bytes().filter(|b| *b == b'\n').count());
        ensure("pieces", n + 1 == a.split('\n').count());
        ensure("len", a.bytes().count() == a.len());
        cover("end");
    }
}
