//! Dates and times, worked out by hand; programs that use them (E16), and those that use
//! the environment and format strings (E18).
use crate::eval::Stop;
use crate::rng::Rng;

/// The machine's own zone, for as long as this runs.
pub const LOCAL: i64 = 19_800;
pub fn settle() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| { std::env::set_var("TZ", "<+0530>-5:30"); std::env::set_var("SEAM_REPLAY", "a \u{e9}\n<v>"); std::env::set_var("SEAM_REPLAY_BARE", ""); std::env::set_var("SEAM_REPLAY_WIDE", " w\t\n"); std::env::set_var("SEAM_REPLAY_BAD", { use std::os::unix::ffi::OsStrExt; std::ffi::OsStr::from_bytes(b"a\xffb") }); std::env::remove_var("SEAM_REPLAY_NOT"); });
}
/// Hours, as seconds: nothing if they are out of range or no number.
pub fn hours(s: &str) -> Result<i64, Stop> {
    let (neg, t) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    let (a, b) = t.split_once('.').unwrap_or((t, ""));
    if a.is_empty() || b.len() > 15 || a.len() > 12 || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) { return Err(Stop::Unknown) }
    let d = 10i128.pow(b.len() as u32);
    let n = 3600 * (a.to_string() + b).parse::<i128>().map_err(|_| Stop::Unknown)?;
    // They are read with 32 bits behind the point, so the middle is not known.
    let twice = 2 * n % (2 * d);
    if b.len() > 0 && (twice - d).abs() * 1000 < d { return Err(Stop::Unknown) }
    let o = (2 * n + d) / (2 * d);
    if o >= 86_400 { return Err(Stop::Error) }
    Ok(if neg { -o as i64 } else { o as i64 })
}
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let d = z.rem_euclid(146_097);
    let y = (d - d / 1460 + d / 36_524 - d / 146_096) / 365;
    let doy = d - (365 * y + y / 4 - y / 100);
    let m = (5 * doy + 2) / 153;
    (y + era * 400 + (m >= 10) as i64, if m < 10 { m + 3 } else { m - 9 }, doy - (153 * m + 2) / 5 + 1)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = y - (m <= 2) as i64;
    let era = y.div_euclid(400);
    let (yoe, mp) = (y.rem_euclid(400), (m + 9) % 12);
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + (153 * mp + 2) / 5 + d - 1 - 719_468
}
fn length(y: i64, m: i64) -> i64 { match m { 2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
fn zone_text(o: i64, colon: &str) -> String { let a = o.abs() / 60; format!("{}{:02}{colon}{:02}", if o < 0 { '-' } else { '+' }, a / 60, a % 60) }
fn number(s: &str) -> Option<i64> { s.parse::<i64>().ok() }

/// Likewise.
pub fn date(format: &str, secs: Option<&str>, zone: Option<&str>) -> Result<String, Stop> {
    match by_calendar(format, secs, zone) {
        Err(Stop::Unknown) => {},
        known => return known,
    }
    let zone = match zone { Some(z) => hours(z)?, None => LOCAL };
    let Some(secs) = secs.and_then(number) else { return Err(Stop::Unknown) };
    let (Some(t), Some(z)) = (chrono::DateTime::from_timestamp(secs, 0), chrono::FixedOffset::east_opt(zone as i32)) else { return Err(Stop::Unknown) };
    let r = std::panic::catch_unwind(|| {
        let mut o = String::new();
        std::fmt::Write::write_fmt(&mut o, format_args!("{}", t.with_timezone(&z).format(format))).ok().map(|_| o)
    });
    match r { Err(_) => Err(Stop::Unknown), Ok(None) => Err(Stop::Error), Ok(Some(o)) => Ok(o) }
}
fn by_calendar(format: &str, secs: Option<&str>, zone: Option<&str>) -> Result<String, Stop> {
    let zone = match zone { Some(z) => hours(z)?, None => LOCAL };
    let secs = match secs {
        None => return if format.contains('%') { Err(Stop::Unknown) } else { Ok(format.into()) },
        Some(s) => match number(s) { None => return Err(Stop::Error), Some(n) if n.unsigned_abs() > 9_000_000_000_000 => return Err(Stop::Error), Some(n) => n },
    };
    let local = secs + zone;
    let ((y, m, d), t) = (civil(local.div_euclid(86_400)), local.rem_euclid(86_400));
    let mut o = String::new();
    let mut f = format.chars();
    while let Some(c) = f.next() {
        if c != '%' { o.push(c); continue }
        let dated = |s: String| if (1..10_000).contains(&y) { Ok(s) } else { Err(Stop::Unknown) };
        o += &match f.next() {
            Some('Y') => dated(format!("{y:04}"))?,
            Some('m') => dated(format!("{m:02}"))?,
            Some('d') => dated(format!("{d:02}"))?,
            Some('H') => format!("{:02}", t / 3600),
            Some('M') => format!("{:02}", t / 60 % 60),
            Some('S') => format!("{:02}", t % 60),
            Some('s') => secs.to_string(),
            Some('z') => if zone % 60 == 0 { zone_text(zone, "") } else { return Err(Stop::Unknown) },
            Some('%') => "%".into(),
            Some('Q') | None => return Err(Stop::Error),
            _ => return Err(Stop::Unknown),
        };
    }
    Ok(o)
}
/// Worked out by hand; where that does not reach, by the library's rules for one layout and one text.
pub fn timestamp(format: &str, text: &str, zone: Option<&str>) -> Result<String, Stop> {
    match by_hand(format, text, zone) {
        Err(Stop::Unknown) => {},
        known => return known,
    }
    let zone = match zone { Some(z) => hours(z)?, None => LOCAL };
    let r = std::panic::catch_unwind(|| match chrono::DateTime::parse_from_str(text, format) {
        Ok(t) => Some(t.timestamp()),
        Err(_) => chrono::NaiveDateTime::parse_from_str(text, format).ok().map(|t| t.and_utc().timestamp() - zone),
    });
    match r { Err(_) => Err(Stop::Unknown), Ok(None) => Err(Stop::Error), Ok(Some(t)) => Ok(t.to_string()) }
}
fn by_hand(format: &str, text: &str, zone: Option<&str>) -> Result<String, Stop> {
    let zone = match zone { Some(z) => hours(z)?, None => LOCAL };
    // Only those made below are known.
    let (mut v, mut own, mut at) = ([0i64; 6], None, text);
    let mut f = format.chars();
    let mut seen = 0;
    while let Some(c) = f.next() {
        if c != '%' {
            if c != '-' && c != ':' && c != '/' && c != 'T' { return Err(Stop::Unknown) }
            match at.strip_prefix(c) { Some(r) => at = r, None => return Err(Stop::Error) }
            continue;
        }
        let k = match f.next() { Some('Y') => 0, Some('m') => 1, Some('d') => 2, Some('H') => 3, Some('M') => 4, Some('S') => 5, Some('z') => 6, _ => return Err(Stop::Unknown) };
        if seen & 1 << k != 0 { return Err(Stop::Unknown) }
        seen |= 1 << k;
        let n = if k == 0 { 4 } else { 2 };
        if k == 6 {
            if at.len() < 5 || !at.is_char_boundary(5) { return Err(Stop::Unknown) }
            let (z, r) = at.split_at(5);
            let (Some(h), Some(m)) = (number(&z[1..3]), number(&z[3..])) else { return Err(Stop::Unknown) };
            if h > 23 || m > 59 { return Err(Stop::Unknown) }
            own = Some((h * 3600 + m * 60) * if z.starts_with('-') { -1 } else { 1 });
            at = r;
            continue;
        }
        if at.len() < n || !at.bytes().take(n).all(|c| c.is_ascii_digit()) || at.bytes().nth(n).map_or(false, |c| c.is_ascii_digit()) { return Err(Stop::Unknown) }
        v[k] = number(&at[..n]).unwrap();
        at = &at[n..];
    }
    if !at.is_empty() { return Err(Stop::Error) }
    if seen & 31 != 31 { return Err(Stop::Error) }
    let [y, m, d, h, min, s] = v;
    if y < 1 || s == 60 { return Err(Stop::Unknown) }
    if !(1..=12).contains(&m) || d < 1 || d > length(y, m) || h > 23 || min > 59 || s > 60 { return Err(Stop::Error) }
    Ok((days(y, m, d) * 86_400 + h * 3600 + min * 60 + s - own.unwrap_or(zone)).to_string())
}
/// What the library makes of it, handed all of these in their order.
fn library(format: &str, by: &[(Option<&str>, &str)]) -> Result<String, Stop> {
    let r = std::panic::catch_unwind(|| {
        let mut t = formatx::Template::new(format).map_err(|_| ())?;
        for (k, v) in by { match k { Some(k) => t.replace(*k, *v), None => t.replace_positional(*v) } }
        t.text().map_err(|_| ())
    });
    match r { Err(_) => Err(Stop::Unknown), Ok(r) => r.map_err(|_| Stop::Error) }
}
/// A template and what it is filled with.
pub fn fill(format: &str, by: &[(Option<&str>, &str)]) -> Result<String, Stop> {
    if by.iter().any(|x| x.1.contains(['{', '}', '['])) || format.contains('[') { return Err(Stop::Unknown) }
    // Where these are, the library's own rules decide.
    if by.iter().any(|x| x.0.map_or(false, |k| k.is_empty() || !k.chars().all(|c| c.is_ascii_alphabetic()))) || format.contains(':') || format.contains("{{") || format.contains("}}") { return library(format, by) }
    let (mut o, mut at, mut next) = (String::new(), format, 0);
    while let Some(i) = at.find(['{', '}']) {
        o += &at[..i];
        if at.as_bytes()[i] == b'}' { return Err(Stop::Unknown) }
        let Some(j) = at.find('}') else { return Err(Stop::Error) };
        let name = &at[i + 1..j];
        if name.contains('{') { return Err(Stop::Unknown) }
        o += match name {
            "" => { next += 1; match by.iter().filter(|x| x.0.is_none()).nth(next - 1) { Some(x) => x.1, None => return Err(Stop::Error) } },
            // The first of that name fills it.
            "x" | "y" => match by.iter().find(|x| x.0 == Some(name)) { Some(x) => x.1, None => return Err(Stop::Error) },
            _ => return library(format, by),
        };
        at = &at[j + 1..];
    }
    Ok(o + at)
}

// ---- programs -------------------------------------------------------------------
fn an_hour(r: &mut Rng) -> String {
    let sign = r.pick(&["", "", "-", "+"]);
    sign.to_string() + &match r.below(7) {
        0 => r.below(30).to_string(),
        1 => format!("{}.{}", r.below(25), r.pick(&["5", "25", "75", "50", "0"])),
        2 => format!("23.{}", r.pick(&["9997", "9998", "9999", "99985", "99987", "99999"])),
        3 => format!("{}.{:06}", r.below(24), r.below(1_000_000)),
        4 => { let s = r.below(86_500); format!("{:.9}", s as f64 / 3600.0) },
        5 => r.pick(&["1000000", "2147483648", "596523.2", "0.0001", "0.00014", "24", "24.0001", "0.00013"]).to_string(),
        _ => r.pick(&["1e1", "inf", "nan", ".5", "5."]).to_string(),
    }
}
fn seconds(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.pick(&["0", "-1", "86399", "86400", "-86400", "951782400", "1709164800", "+5", "4102444799", "1.5", "1e3", "9223372036854775807", "-9223372036854775808", "9223372036854775808"]).into(),
        1 => (r.below(200_000_000_000) as i64 - 60_000_000_000).to_string(),
        2 => (r.below(40_000) as i64 * 86_400 - 43_200 * 3).to_string(),
        _ => (r.below(4_000_000_000) as i64 - 2_000_000_000).to_string(),
    }
}
pub fn call(r: &mut Rng, focus: &str) -> String {
    if focus == "E18" {
        if r.chance(1, 3) { return format!("(%os/env {})", r.pick(&["SEAM_REPLAY", "\"SEAM_REPLAY\"", "SEAM_REPLAY_NOT", "SEAM_REPLAY_BARE", "SEAM_REPLAY_WIDE", "seam_replay", "SEAM_REPLAY_BAD", "\"SEAM_REPLAY \"", "\"\"", "A B", "(x)", "\"A=B\"", "\n SEAM_REPLAY"])) }
        let f: String = (0..r.below(6)).map(|_| r.pick(&["{}", "{x}", "{y}", "a", " b ", "\\n", "\u{e9}", "{}"])).collect();
        let f = if r.chance(1, 12) { f + r.pick(&["{", "}", "{z}"]) } else { f };
        // Other names, and the library's notations.
        const MORE: [&str; 9] = ["a_b", "a-b", "X", "x1", "1", "0", "\u{e9}", "ab", "_"];
        let more = r.chance(1, 4);
        let f = if more { f + "{" + r.pick(&MORE) + r.pick(&["}", "}", "}", ":?}", ":>4}", ":<4}-", ":^5}"]) + r.pick(&["", "{x:?}", "{:>3}", "{{x}}", "{a_b}"]) } else { f };
        let mut a = vec![];
        if more { for _ in 0..r.below(4) { a.push(format!(":{} {}", r.pick(&MORE), r.pick(&["m", "n", "\"o o\"", "7"]))) } }
        for _ in 0..r.below(5) { a.push(match r.below(4) { 0 => format!(":x {}", r.pick(&["1", "v", "\"w w\"", "\" w\\n\"", "()"])), 1 => format!(":y {}", r.pick(&["2", "u", "\"\""])), _ => r.pick(&["3", "p", "\"q r \"", "\"\\tq\"", "\"q r\"", "\"\u{e9}\"", "s", "t"]).to_string() }) }
        return format!("(%format{}{} {})", r.pick(&[" ", " ", "\n", "   "]), if r.chance(1, 20) { "f".into() } else { format!("\"{f}\"") }, a.join(" "));
    }
    let zone = match r.below(5) { 0 => String::new(), 1 => format!(" :timezone {} :timezone {}", an_hour(r), an_hour(r)), _ => format!(" :timezone {}", an_hour(r)) };
    if r.chance(1, 2) {
        let n = 1 + r.below(6);
        let f: String = (0..n).map(|_| r.pick(&["%Y", "%m", "%d", "%H", "%M", "%S", "%z", "%s", "%%", "-", " ", ":", "\u{e9}", "T", "%Y-%m-%d %H:%M:%S", "%A", "%e", "%b", "%B", "%j", "%y", "%I", "%p", "%:z", "%Z", "%-d", "%F", "%T", "%+", "%c", "%U", "%G", "%f", "%3f", "%.f", "%u", "Z", "\t"])).collect();
        let f = if r.chance(1, 15) { f + r.pick(&["%Q", "%"]) } else { f };
        let t = if r.chance(9, 10) { seconds(r) } else { String::new() };
        return if r.chance(1, 2) { format!("(%date \"{f}\" {t}{zone})") } else { format!("(%date{zone} \"{f}\" {t})") };
    }
    let mut p: Vec<(&str, String)> = vec![];
    let (y, m) = (1 + r.below(9999) as i64, 1 + r.below(12) as i64);
    let y = if r.chance(1, 2) { 1900 + y % 200 } else { y };
    let (m, d) = (if r.chance(1, 25) { r.below(15) as i64 } else { m }, { let n = if r.chance(1, 15) { 33 } else { 28 }; 1 + r.below(n) });
    p.push(("%Y", format!("{y:04}")));
    p.push(("%m", format!("{m:02}")));
    p.push(("%d", format!("{d:02}")));
    let n = if r.chance(1, 15) { 30 } else { 24 };
    p.push(("%H", format!("{:02}", r.below(n))));
    p.push(("%M", format!("{:02}", r.below(60))));
    p.push(("%S", format!("{:02}", r.below(60))));
    if r.chance(1, 3) { p.push(("%z", zone_text(r.below(170_000) as i64 / 60 * 60 - 85_000 / 60 * 60, ""))) }
    if r.chance(1, 6) { let i = r.below(p.len()); p.remove(i); }
    if r.chance(1, 4) { let (i, j) = (r.below(p.len()), r.below(p.len())); p.swap(i, j) }
    let sep = r.pick(&["-", ":", "/", "T"]);
    let (f, t) = (p.iter().map(|x| x.0).collect::<Vec<_>>().join(sep), p.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(sep));
    let t = if r.chance(1, 20) { t + r.pick(&["x", " ", "Z", " and on", "+00:00", ".5", "0"]) } else { t };
    if r.chance(1, 4) {
        // As dates are written elsewhere.
        let (f, z) = r.of(&[("%Y-%m-%dT%H:%M:%SZ", "Z"), ("%Y-%m-%dT%H:%M:%S", ""), ("%Y-%m-%d %H:%M:%S UTC", " UTC"), ("%Y-%m-%dT%H:%M:%S%:z", "+02:00"), ("%Y-%m-%dT%H:%M:%S%z", "Z"), ("%Y-%m-%dT%H:%M:%S+00:00", "+00:00"), ("%Y-%m-%dT%H:%M:%S%.fZ", ".25Z"),
            ("%Y-%m-%d %H:%M:%S %z", " -0330"), ("%Y-%m-%dT%H:%M:%S%.f%:z", ".5-01:00"), ("%Y-%m-%dT%H:%M:%S%Z", "GMT"), ("%Y-%m-%d %H:%M:%S GMT", " GMT"), ("%Y-%m-%d  %H:%M:%S", ""), ("%Y-%m-%d%H:%M:%S", ""), ("%F %T", ""), ("%+", "Z"), ("%+", "+01:00")]);
        let n = if r.chance(1, 10) { 70 } else { 60 };
        let t = format!("{y:04}-{m:02}-{d:02}{}{:02}:{:02}:{:02}{z}", if f.contains('T') && f != "%F %T" || f == "%+" { "T" } else { " " }, r.below(24), r.below(60), r.below(n));
        let t = match r.below(12) { 0 => t.replace('T', " "), 1 => t + " ", 2 => format!(" {t}"), 3 => t.to_lowercase(), _ => t };
        return format!("(%timestamp \"{f}\" \"{t}\"{zone})");
    }
    if r.chance(1, 6) {
        let (f, t) = r.of(&[("%s", "12"), ("%s", "-1"), ("%d %b %Y %H:%M", "3 Mar 2001 04:05"), ("%d %B %Y %I:%M %p", "13 march 1999 11:59 pm"), ("%a, %d %b %Y %H:%M:%S %z", "Thu, 01 Jan 1970 00:00:01 +0100"), ("%a, %d %b %Y %H:%M:%S %z", "Mon, 01 Jan 1970 00:00:01 +0100"), ("%Y-%j %H:%M", "2000-366 01:00"),
            ("%y-%m-%d %H:%M", "70-01-01 00:00"), ("%Y-%m-%d", "2000-01-01"), ("%H:%M", "01:00"), ("%D %R", "01/02/03 04:05"), ("%s %z", "60 +0200"), ("%Y-%m-%d %H:%M", "-001-01-01 00:00"), ("%%%Y-%m-%d %H", "%2000-01-01 00"), ("", ""), ("%c", "Sun Jul  8 00:34:60 2001"), ("%Y-%m-%d %H:%M:%S", "2016-12-31 23:59:60")]);
        return format!("(%timestamp \"{f}\" \"{t}\"{zone})");
    }
    format!("(%timestamp \"{f}\" \"{t}\"{zone})")
}
pub fn program(r: &mut Rng, focus: &str) -> String {
    let mut o = String::new();
    for _ in 0..1 + r.below(4) {
        o += r.pick(&["", " ", "\n", "\n  "]);
        let c = call(r, focus);
        o += &match r.below(6) { 0 => format!("(p {c})"), 1 => format!("(%define d {c}) %d"), 2 => format!("(%concat {c} \"\")"), _ => c };
    }
    o
}
