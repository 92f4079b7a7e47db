//! Projection of library values to JSON. Text is a list of code points.
use chrono::{DateTime, Datelike, Duration, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
use icalendar::parser;
use icalendar::{Calendar, CalendarComponent, CalendarDateTime, Component, DatePerhapsTime, Property, ValueType};
use serde_json::{json, Value};

pub fn t(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}

pub fn s(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a
            .iter()
            .map(|c| char::from_u32(c.as_u64().unwrap_or(0xfffd) as u32).unwrap_or('\u{fffd}'))
            .collect(),
        _ => String::new(),
    }
}

pub fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!({"st": "some", "v": v}),
        None => json!({"st": "none"}),
    }
}

pub fn ok(v: Value) -> Value {
    json!({"st": "ok", "v": v})
}

pub fn err() -> Value {
    json!({"st": "err"})
}

pub fn res<E>(r: Result<Value, E>) -> Value {
    match r {
        Ok(v) => ok(v),
        Err(_) => err(),
    }
}

/// a destination that takes only so many bytes
struct Limited {
    left: usize,
    text: String,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut n = s.len().min(self.left);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.text.push_str(&s[..n]);
        if n < s.len() {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= n;
        Ok(())
    }
}

/// writing to destinations of several sizes: the size, what was answered, and whether what was written is a prefix of the whole
pub fn limited(full: &str, write: impl Fn(&mut dyn std::fmt::Write) -> std::fmt::Result) -> Value {
    let n = full.len();
    let list: Vec<Value> = [0, n / 5, n / 2, n * 4 / 5, n.saturating_sub(1), n, n + 64]
        .iter()
        .map(|&size| {
            let mut out = Limited { left: size, text: String::new() };
            let r = crate::guard(|| res(write(&mut out).map(|_| json!(0))));
            json!({"size": size, "st": r["st"], "prefix": full.starts_with(&out.text), "whole": full == out.text})
        })
        .collect();
    json!({"need": n, "list": list})
}

// ---------------------------------------------------------------- model

pub fn property(p: &Property) -> Value {
    let mut params: Vec<(String, String, String)> = p
        .params()
        .iter()
        .map(|(mk, par)| (mk.clone(), par.key().to_owned(), par.value().to_owned()))
        .collect();
    params.sort();
    // one that is kept under another name than its own is shown under both
    let params: Vec<Value> = params
        .iter()
        .flat_map(|(name, k, v)| std::iter::once(json!([t(k), t(v)])).chain((name != k).then(|| json!([t(name), t(v)]))))
        .collect();
    json!({"k": t(p.key()), "v": t(p.value()), "p": params})
}

/// a property, and once more if it is kept under another name than its own
fn filed<'a>(name: &'a str, p: &'a Property) -> impl Iterator<Item = Value> + 'a {
    let other = (name != p.key()).then(|| {
        let mut v = property(p);
        v["k"] = t(name);
        v
    });
    std::iter::once(property(p)).chain(other)
}

pub fn component<C: Component>(c: &C) -> Value {
    let props: Vec<Value> = c.properties().iter().flat_map(|(name, p)| filed(name, p)).collect();
    let multi: Vec<Value> = c.multi_properties().iter().flat_map(|(name, ps)| ps.iter().flat_map(move |p| filed(name, p))).collect();
    let comps: Vec<Value> = c.components().iter().map(component).collect();
    json!({"kind": t(&c.component_kind()), "props": props, "multi": multi, "comps": comps})
}

pub fn cal_component(c: &CalendarComponent) -> Value {
    let (var, mut v) = match c {
        CalendarComponent::Event(e) => ("event", component(e)),
        CalendarComponent::Todo(e) => ("todo", component(e)),
        CalendarComponent::Venue(e) => ("venue", component(e)),
        CalendarComponent::Other(e) => ("other", component(e)),
        _ => ("unknown", json!({})),
    };
    v["var"] = Value::from(var);
    v
}

pub fn calendar(c: &Calendar) -> Value {
    let props: Vec<Value> = c.properties.iter().map(property).collect();
    let comps: Vec<Value> = c.components.iter().map(cal_component).collect();
    json!({"props": props, "comps": comps})
}

// ---------------------------------------------------------------- parse tree

pub fn pparam(p: &parser::Parameter) -> Value {
    match &p.val {
        Some(v) => json!([t(p.key.as_str()), 1, t(v.as_str())]),
        None => json!([t(p.key.as_str()), 0, []]),
    }
}

pub fn pproperty(p: &parser::Property) -> Value {
    let params: Vec<Value> = p.params.iter().map(pparam).collect();
    json!({"n": t(p.name.as_str()), "v": t(p.val.as_str()), "p": params})
}

pub fn pcomponent(c: &parser::Component) -> Value {
    let props: Vec<Value> = c.properties.iter().map(pproperty).collect();
    let comps: Vec<Value> = c.components.iter().map(pcomponent).collect();
    json!({"n": t(c.name.as_str()), "props": props, "comps": comps})
}

pub fn pcalendar(c: &parser::Calendar) -> Value {
    let props: Vec<Value> = c.properties.iter().map(pproperty).collect();
    let comps: Vec<Value> = c.components.iter().map(pcomponent).collect();
    json!({"props": props, "comps": comps})
}

// ---------------------------------------------------------------- dates, durations, types

pub fn ndt(d: &NaiveDateTime) -> Value {
    json!({"y": d.year(), "m": d.month(), "d": d.day(), "H": d.hour(), "M": d.minute(), "S": d.second(), "ns": d.nanosecond()})
}

pub fn nd(d: &NaiveDate) -> Value {
    json!({"f": "date", "y": d.year(), "m": d.month(), "d": d.day()})
}

pub fn utc(d: &DateTime<Utc>) -> Value {
    let mut v = ndt(&d.naive_utc());
    v["f"] = Value::from("utc");
    v
}

pub fn cdt(d: &CalendarDateTime) -> Value {
    match d {
        CalendarDateTime::Floating(d) => {
            let mut v = ndt(d);
            v["f"] = Value::from("floating");
            v
        }
        CalendarDateTime::Utc(d) => utc(d),
        CalendarDateTime::WithTimezone { date_time, tzid } => {
            let mut v = ndt(date_time);
            v["f"] = Value::from("zoned");
            v["tz"] = t(tzid);
            v
        }
    }
}

pub fn dpt(d: &DatePerhapsTime) -> Value {
    match d {
        DatePerhapsTime::Date(d) => nd(d),
        DatePerhapsTime::DateTime(d) => cdt(d),
    }
}

pub fn dur(d: &Duration) -> Value {
    // num_seconds and subsec_nanos round towards zero and have the sign of the duration
    let (secs, ns) = (d.num_seconds(), d.subsec_nanos());
    json!({"neg": *d < Duration::zero(), "digits": t(&secs.unsigned_abs().to_string()), "ns": ns.unsigned_abs()})
}

pub fn vtype(v: Option<ValueType>) -> Value {
    Value::from(match v {
        None => "NONE",
        Some(ValueType::Binary) => "BINARY",
        Some(ValueType::Boolean) => "BOOLEAN",
        Some(ValueType::CalAddress) => "CAL-ADDRESS",
        Some(ValueType::Date) => "DATE",
        Some(ValueType::DateTime) => "DATE-TIME",
        Some(ValueType::Duration) => "DURATION",
        Some(ValueType::Float) => "FLOAT",
        Some(ValueType::Integer) => "INTEGER",
        Some(ValueType::Period) => "PERIOD",
        Some(ValueType::Recur) => "RECUR",
        Some(ValueType::Text) => "TEXT",
        Some(ValueType::Time) => "TIME",
        Some(ValueType::Uri) => "URI",
        Some(ValueType::UtcOffset) => "UTC-OFFSET",
    })
}

pub const VTYPES: [(&str, ValueType); 14] = [
    ("BINARY", ValueType::Binary),
    ("BOOLEAN", ValueType::Boolean),
    ("CAL-ADDRESS", ValueType::CalAddress),
    ("DATE", ValueType::Date),
    ("DATE-TIME", ValueType::DateTime),
    ("DURATION", ValueType::Duration),
    ("FLOAT", ValueType::Float),
    ("INTEGER", ValueType::Integer),
    ("PERIOD", ValueType::Period),
    ("RECUR", ValueType::Recur),
    ("TEXT", ValueType::Text),
    ("TIME", ValueType::Time),
    ("URI", ValueType::Uri),
    ("UTC-OFFSET", ValueType::UtcOffset),
];

// ---------------------------------------------------------------- arguments

fn num(v: &Value) -> u32 {
    v.as_u64().unwrap_or(0) as u32
}

pub fn arg_nd(v: &Value) -> NaiveDate {
    NaiveDate::from_ymd_opt(v["y"].as_i64().unwrap_or(0) as i32, num(&v["m"]), num(&v["d"])).expect("date argument")
}

pub fn arg_ndt(v: &Value) -> NaiveDateTime {
    arg_nd(v).and_hms_nano_opt(num(&v["H"]), num(&v["M"]), num(&v["S"]), num(&v["ns"])).expect("time argument")
}

pub fn arg_utc(v: &Value) -> DateTime<Utc> {
    Utc.from_utc_datetime(&arg_ndt(v))
}

pub fn arg_cdt(v: &Value) -> CalendarDateTime {
    match v["f"].as_str() {
        Some("utc") => CalendarDateTime::Utc(arg_utc(v)),
        Some("zoned") => CalendarDateTime::WithTimezone { date_time: arg_ndt(v), tzid: s(&v["tz"]) },
        _ => CalendarDateTime::Floating(arg_ndt(v)),
    }
}

pub fn arg_dpt(v: &Value) -> DatePerhapsTime {
    match v["f"].as_str() {
        Some("date") => DatePerhapsTime::Date(arg_nd(v)),
        _ => DatePerhapsTime::DateTime(arg_cdt(v)),
    }
}

pub fn arg_dur(v: &Value) -> Duration {
    let secs: i64 = s(&v["digits"]).parse().expect("duration argument");
    let d = Duration::seconds(secs) + Duration::milliseconds(v["ms"].as_i64().unwrap_or(0));
    if v["neg"].as_bool().unwrap_or(false) { -d } else { d }
}

pub fn arg_property(v: &Value) -> Property {
    let mut p = Property::new(s(&v["k"]), s(&v["v"]));
    for (i, par) in v["p"].as_array().into_iter().flatten().enumerate() {
        let (k, val) = (s(&par[0]), s(&par[1]));
        if i % 2 == 0 {
            p.add_parameter(&k, &val);
        } else {
            p.append_parameter((k.as_str(), val.as_str()));
        }
    }
    p
}
