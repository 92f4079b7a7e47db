//! Cases that consist of one call or one fixed chain of calls.
use crate::dump::*;
use crate::guard;
use icalendar::parser::{self, unfold};
use icalendar::{
    Alarm, Calendar, CalendarComponent, CalendarDateTime, Component, DatePerhapsTime, Parameter, Property, Related,
    Trigger, ValueType,
};
use serde_json::{json, Value};
use std::str::FromStr;

/// distinct values of one case are stored once, results are indices
#[derive(Default)]
struct Pool(Vec<Value>);
impl Pool {
    fn put(&mut self, v: Value) -> Value {
        let i = match self.0.iter().position(|x| *x == v) {
            Some(i) => i,
            None => {
                self.0.push(v);
                self.0.len() - 1
            }
        };
        Value::from(i + 1)
    }
}

fn write_prop(p: Property) -> Value {
    guard(|| res(TryInto::<String>::try_into(p).map(|x| t(&x))))
}

fn pp_of(text: &str) -> Value {
    guard(|| res(parser::Property::try_from(text).map(|p| pproperty(&p))))
}

fn mp_of(text: &str) -> Value {
    guard(|| res(text.parse::<Property>().map(|p| property(&p))))
}

/// the same property made in other ways
#[allow(deprecated)]
fn other_ways(case: &Value) -> Vec<Property> {
    let (k, v) = (s(&case["k"]), s(&case["v"]));
    let params: Vec<(String, String)> =
        case["p"].as_array().into_iter().flatten().map(|x| (s(&x[0]), s(&x[1]))).collect();
    let mut made = vec![
        Property::new_pre_alloc(k.clone(), v.clone()),
        Property::from((k.as_str(), v.as_str())),
        Property::new(k.as_str(), v.as_str()),
    ];
    for q in &mut made {
        for (k, v) in &params {
            q.append_parameter(Parameter::from((k.as_str(), v.as_str())));
        }
    }
    let mut list = Property::from_array([made[0].clone(), made[1].clone()]);
    made.append(&mut list);
    if params.is_empty() {
        made.append(&mut Property::from_array([(k.as_str(), v.as_str()); 2]));
    }
    let mut last = made[2].clone();
    made.push(last.done());
    made
}

/// a property made through the API: what it holds, what is written, what is read back
pub fn prop(case: &Value) -> Value {
    let mut pool = Pool::default();
    let mut o = json!({});
    let p = arg_property(case);
    o["kept"] = pool.put(property(&p));
    o["vtype"] = vtype(p.value_type());
    o["ways"] = Value::Array(other_ways(case).iter().map(|q| pool.put(property(q))).collect());
    o["valas"] = guard(|| opt(p.get_value_as(|v| Some(t(v)))));
    o["valnone"] = guard(|| opt(p.get_value_as(|_| None::<Value>)));
    o["paramas"] = guard(|| {
        let mut names: Vec<String> = p.params().keys().cloned().collect();
        names.push("X-NOT-THERE".into());
        ok(Value::Array(names.iter().map(|k| json!([t(k), opt(p.get_param_as(k, |v| Some(t(v))))])).collect()))
    });
    let wire = write_prop(p.clone());
    if wire["st"] == "ok" {
        let text = s(&wire["v"]);
        let unf = unfold(&text);
        o["unf"] = pool.put(t(&unf));
        o["pp"] = pool.put(pp_of(&unf));
        o["mp"] = pool.put(mp_of(&unf));
        o["rewrite"] = pool.put(guard(|| match unf.parse::<Property>() {
            Ok(p) => write_prop(p),
            Err(_) => err(),
        }));
        o["reprint"] = pool.put(guard(|| res(parser::Property::try_from(unf.as_str()).map(|p| t(&p.to_string())))));
        o["pp2"] = pool.put(guard(|| {
            let p = match parser::Property::try_from(unf.as_str()) {
                Ok(p) => p.to_string(),
                Err(_) => return err(),
            };
            pp_of(&unfold(&p))
        }));
    }
    o["wire"] = pool.put(wire);
    // the same property inside a component and inside a calendar
    o["inevent"] = pool.put(guard(|| {
        let mut e = icalendar::Event::new();
        e.append_property(p.clone());
        res(e.try_into_string().map(|x| t(&x)))
    }));
    o["incal"] = pool.put(guard(|| {
        let mut c = Calendar::empty();
        c.append_property(p.clone());
        ok(t(&c.to_string()))
    }));
    o["pool"] = Value::Array(pool.0);
    o
}

/// one content line read by everything that reads one
pub fn line(case: &Value) -> Value {
    let mut pool = Pool::default();
    let mut o = json!({});
    let text = s(&case["text"]);
    o["pp"] = pool.put(pp_of(&text));
    o["mp"] = pool.put(mp_of(&text));
    let doc = format!("BEGIN:X\n{}\nEND:X\n", text);
    o["inx"] = pool.put(guard(|| {
        res(parser::read_components(&doc).map(|cs| Value::Array(cs.iter().map(pcomponent).collect())))
    }));
    o["reprint"] = pool.put(guard(|| res(parser::Property::try_from(text.as_str()).map(|p| t(&p.to_string())))));
    o["pp2"] = pool.put(guard(|| match parser::Property::try_from(text.as_str()) {
        Ok(p) => pp_of(&unfold(&p.to_string())),
        Err(_) => err(),
    }));
    o["wire"] = pool.put(guard(|| match text.parse::<Property>() {
        Ok(p) => write_prop(p),
        Err(_) => err(),
    }));
    o["json"] = pool.put(guard(|| match parser::Property::try_from(text.as_str()) {
        Ok(p) => {
            let js = serde_json::to_string(&p).expect("to json");
            let r = match serde_json::from_str::<parser::Property>(&js) {
                Ok(back) => json!({"st": "ok", "v": pproperty(&back), "eq": back == p, "print": t(&back.to_string())}),
                Err(_) => json!({"st": "jsonerr"}),
            };
            r
        }
        Err(_) => err(),
    }));
    o["pool"] = Value::Array(pool.0);
    o
}

pub fn param(case: &Value) -> Value {
    let text = s(&case["text"]);
    json!({
        "p": guard(|| res(parser::Parameter::try_from(text.as_str()).map(|p| pparam(&p)))),
        "mp": guard(|| res(parser::Parameter::try_from(text.as_str()).map(|p| {
            let m: Parameter = p.into();
            json!([t(m.key()), t(m.value())])
        }))),
        "json": guard(|| match parser::Parameter::try_from(text.as_str()) {
            Ok(p) => {
                let js = serde_json::to_string(&p).expect("to json");
                let r = match serde_json::from_str::<parser::Parameter>(&js) {
                    Ok(back) => ok(pparam(&back)),
                    Err(_) => json!({"st": "jsonerr"}),
                };
                r
            }
            Err(_) => err(),
        }),
    })
}

pub fn unfold_case(case: &Value) -> Value {
    let text = s(&case["text"]);
    json!({"unf": guard(|| ok(t(&unfold(&text))))})
}

/// components inside of one another; how many levels are read, printed, converted and written
pub fn deep(case: &Value) -> Value {
    let n = |k: &str| case[k].as_u64().unwrap_or(0) as usize;
    let name = s(&case["name"]);
    let begin = format!("BEGIN:{name}\r\n{}", "COMMENT:c\r\n".repeat(n("pre")));
    let end = format!("{}END:{name}\r\n", "ATTENDEE:a\r\n".repeat(n("post")));
    let text = format!("{}{}", begin.repeat(n("depth")), end.repeat(n("ends")));
    let mut o = guard(|| match parser::read_components(&text) {
        Ok(roots) => {
            let (mut levels, mut props, mut named) = (0, 0, true);
            let mut at = roots.first();
            while let Some(c) = at {
                levels += 1;
                props += c.properties.len();
                named &= c.name == name.as_str();
                at = c.components.first();
            }
            let count = roots.len();
            std::mem::forget(roots);
            ok(json!({"roots": count, "levels": levels, "props": props, "named": named}))
        }
        Err(_) => json!({"st": "err"}),
    });
    if n("all") == 1 {
        o["all"] = guard(|| {
            let (Ok(tree), Ok(cal)) = (parser::read_calendar(&text), text.parse::<Calendar>()) else {
                return err();
            };
            let written = cal.to_string();
            let Ok(back) = written.parse::<Calendar>() else {
                return err();
            };
            ok(json!({"print": tags(&tree.to_string(), &name), "write": tags(&written, &name), "model": deep_model(&cal), "back": deep_model(&back)}))
        });
    }
    o
}

/// how many BEGIN lines, END lines, levels of them and other lines of the input a text has
fn tags(text: &str, name: &str) -> Value {
    let (mut begins, mut ends, mut open, mut levels, mut others) = (0, 0, 0i64, 0, 0);
    for l in text.split("\r\n") {
        if l.strip_prefix("BEGIN:") == Some(name) {
            begins += 1;
            open += 1;
            levels = levels.max(open);
        } else if l.strip_prefix("END:") == Some(name) {
            ends += 1;
            open -= 1;
        } else if l == "COMMENT:c" || l == "ATTENDEE:a" {
            others += 1;
        }
    }
    json!({"begins": begins, "ends": ends, "levels": levels, "others": others})
}

/// levels below the calendar and their repeated properties
fn deep_model(cal: &Calendar) -> Value {
    use icalendar::Component;
    fn many<C: Component>(c: &C) -> usize {
        c.multi_properties().values().map(Vec::len).sum()
    }
    let Some(first) = cal.first() else {
        return json!({"levels": 0, "props": 0});
    };
    let (mut props, mut at) = match first {
        CalendarComponent::Event(c) => (many(c), c.components()),
        CalendarComponent::Todo(c) => (many(c), c.components()),
        CalendarComponent::Venue(c) => (many(c), c.components()),
        CalendarComponent::Other(c) => (many(c), c.components()),
        _ => panic!("component"),
    };
    let mut levels = 1;
    while let Some(c) = at.first() {
        levels += 1;
        props += many(c);
        at = c.components();
    }
    json!({"levels": levels, "props": props})
}

/// one text read by everything that reads text, and what comes of it
pub fn read(case: &Value) -> Value {
    let mut pool = Pool::default();
    let mut o = json!({});
    let text = s(&case["text"]);
    let full = case["full"].as_i64().unwrap_or(1) == 1;
    let unf = unfold(&text);
    o["unf"] = pool.put(t(&unf));
    o["rc"] = pool.put(guard(|| res(parser::read_calendar(&unf).map(|c| pcalendar(&c)))));
    o["rcs"] = pool.put(guard(|| {
        res(parser::read_components(&unf).map(|cs| Value::Array(cs.iter().map(pcomponent).collect())))
    }));
    o["simple"] = pool.put(guard(|| {
        res(parser::read_calendar_simple(&unf).map(|cs| Value::Array(cs.iter().map(pcomponent).collect())))
    }));
    o["cal"] = pool.put(guard(|| res(Calendar::from_str(&text).map(|c| calendar(&c)))));
    if full {
        o["calp"] = pool.put(guard(|| res(parser::read_calendar(&unf).map(|c| calendar(&Calendar::from(c))))));
        o["calv"] = pool.put(guard(|| res(parser::read_components(&unf).map(|c| calendar(&Calendar::from(c))))));
        o["pc"] = pool.put(guard(|| res(parser::Component::try_from(unf.as_str()).map(|c| pcomponent(&c)))));
        o["cc"] = pool.put(guard(|| res(CalendarComponent::from_str(&text).map(|c| cal_component(&c)))));
        // looking up the properties of the first root by name
        o["find"] = guard(|| match parser::read_components(&unf) {
            Ok(cs) if !cs.is_empty() => {
                let mut names: Vec<String> = cs[0].properties.iter().map(|p| p.name.as_str().to_owned()).collect();
                // and by names that are none of theirs, or another one's
                let near: Vec<String> = names.iter().take(3).flat_map(|n| {
                    let shorter: String = n.chars().take(n.chars().count().saturating_sub(1)).collect();
                    [format!(" {n}"), format!("{n} "), format!("{n}:"), format!("{n}-"), n.to_lowercase(), n.to_uppercase(), shorter]
                }).collect();
                names.extend(near);
                names.push("X-NOT-THERE".into());
                ok(Value::Array(
                    names.iter().map(|n| json!([t(n), opt(cs[0].find_prop(n).map(pproperty))])).collect(),
                ))
            }
            _ => err(),
        });
        // parse tree: print, read, JSON
        let print = guard(|| res(parser::read_calendar(&unf).map(|c| t(&c.to_string()))));
        if print["st"] == "ok" {
            let ptext = unfold(&s(&print["v"]));
            o["rc2"] = pool.put(guard(|| res(parser::read_calendar(&ptext).map(|c| pcalendar(&c)))));
        }
        o["print"] = pool.put(print);
        o["json"] = pool.put(guard(|| match parser::read_calendar(&unf) {
            Ok(c) => {
                let js = serde_json::to_string(&c).expect("to json");
                let r = match serde_json::from_str::<parser::Calendar>(&js) {
                    Ok(back) => ok(pcalendar(&back)),
                    Err(_) => json!({"st": "jsonerr"}),
                };
                r
            }
            Err(_) => err(),
        }));
        o["jprint"] = pool.put(guard(|| match parser::read_calendar(&unf) {
            Ok(c) => {
                let js = serde_json::to_string(&c).expect("to json");
                let r = match serde_json::from_str::<parser::Calendar>(&js) {
                    Ok(back) => ok(t(&back.to_string())),
                    Err(_) => json!({"st": "jsonerr"}),
                };
                r
            }
            Err(_) => err(),
        }));
        // single components through JSON, and compared by the library's own equality
        o["jcomps"] = pool.put(guard(|| match parser::read_components(&unf) {
            Ok(cs) => {
                let js = serde_json::to_string(&cs).expect("to json");
                let r = match serde_json::from_str::<Vec<parser::Component>>(&js) {
                    Ok(back) => ok(Value::Array(back.iter().map(pcomponent).collect())),
                    Err(_) => json!({"st": "jsonerr"}),
                };
                r
            }
            Err(_) => err(),
        }));
        o["jeq"] = guard(|| match parser::read_components(&unf) {
            Ok(cs) => {
                let js = serde_json::to_string(&cs).expect("to json");
                let r = match serde_json::from_str::<Vec<parser::Component>>(&js) {
                    Ok(back) => json!({"st": "ok", "v": back == cs}),
                    Err(_) => json!({"st": "jsonerr"}),
                };
                r
            }
            Err(_) => err(),
        });
        // model: write, read
        let t0 = now();
        let w = guard(|| res(Calendar::from_str(&text).map(|c| t(&c.to_string()))));
        let t1 = now();
        o["t0"] = t0;
        o["t1"] = t1;
        if w["st"] == "ok" {
            let wt = s(&w["v"]);
            o["cal2"] = pool.put(guard(|| res(Calendar::from_str(&wt).map(|c| calendar(&c)))));
        }
        o["w"] = pool.put(w);
    }
    o["pool"] = Value::Array(pool.0);
    o
}

pub fn now() -> Value {
    t(&chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string())
}

/// a date in every conversion
pub fn dt(case: &Value) -> Value {
    let v = arg_dpt(&case["v"]);
    let key = s(&case["key"]);
    let p = v.to_property(&key);
    let mut o = json!({});
    o["prop"] = property(&p);
    o["back"] = guard(|| opt(DatePerhapsTime::from_property(&p).map(|d| dpt(&d))));
    o["naive"] = guard(|| ok(nd(&v.date_naive())));
    o["naive2"] = guard(|| ok(nd(&chrono::NaiveDate::from(v.clone()))));
    let wire = write_prop(p.clone());
    if wire["st"] == "ok" {
        let unf = unfold(&s(&wire["v"]));
        o["parsed"] = guard(|| match parser::Property::try_from(unf.as_str()) {
            Ok(pp) => res(DatePerhapsTime::try_from(&pp).map(|d| dpt(&d))),
            Err(_) => err(),
        });
        o["readback"] = guard(|| match unf.parse::<Property>() {
            Ok(p) => opt(DatePerhapsTime::from_property(&p).map(|d| dpt(&d))),
            Err(_) => err(),
        });
    }
    o["wire"] = wire;
    #[allow(deprecated)]
    if case["v"]["f"] == "date" {
        o["conv2"] = guard(|| ok(dpt(&DatePerhapsTime::from(chrono::Date::<chrono::Utc>::from_utc(arg_nd(&case["v"]), chrono::Utc)))));
    }
    o["conv"] = guard(|| {
        // the From conversions of the matching chrono type
        let d: DatePerhapsTime = match case["v"]["f"].as_str() {
            Some("date") => arg_nd(&case["v"]).into(),
            Some("floating") => arg_ndt(&case["v"]).into(),
            Some("utc") => arg_utc(&case["v"]).into(),
            _ => arg_cdt(&case["v"]).into(),
        };
        ok(dpt(&d))
    });
    if let DatePerhapsTime::DateTime(c) = &v {
        o["utc"] = guard(|| opt(c.try_into_utc().map(|u| utc(&u))));
        if let CalendarDateTime::WithTimezone { date_time, tzid } = c {
            if let Ok(tz) = tzid.parse::<chrono_tz::Tz>() {
                o["near"] = near(*date_time, tz);
            }
        }
        o["str"] = guard(|| res(CalendarDateTime::from_str(p.value()).map(|d| cdt(&d))));
    }
    o
}

/// a property with arbitrary value read as a date
pub fn dtraw(case: &Value) -> Value {
    let p = arg_property(case);
    let names: Vec<(String, String)> =
        case["p"].as_array().into_iter().flatten().map(|x| (s(&x[0]), s(&x[1]))).collect();
    let val = s(&case["v"]);
    let key = s(&case["k"]);
    let pp = parser::Property {
        name: key.as_str().into(),
        val: val.as_str().into(),
        params: names
            .iter()
            .map(|(k, v)| parser::Parameter::new_ref(k.as_str(), Some(v.as_str())))
            .collect(),
    };
    let get = |f: &dyn Fn(&icalendar::Event, &icalendar::Todo) -> Value| {
        guard(|| {
            let mut e = icalendar::Event::new();
            e.append_property(p.clone());
            let mut td = icalendar::Todo::new();
            td.append_property(p.clone());
            f(&e, &td)
        })
    };
    json!({
        "back": guard(|| opt(DatePerhapsTime::from_property(&p).map(|d| dpt(&d)))),
        "parsed": guard(|| res(DatePerhapsTime::try_from(&pp).map(|d| dpt(&d)))),
        "str": guard(|| res(CalendarDateTime::from_str(&val).map(|d| cdt(&d)))),
        "start": get(&|e, _| opt(e.get_start().map(|d| dpt(&d)))),
        "end": get(&|e, _| opt(e.get_end().map(|d| dpt(&d)))),
        "due": get(&|_, t| opt(t.get_due().map(|d| dpt(&d)))),
        "stamp": get(&|e, _| opt(e.get_timestamp().map(|d| utc(&d)))),
        "created": get(&|e, _| opt(e.get_created().map(|d| utc(&d)))),
        "lastmod": get(&|e, _| opt(e.get_last_modified().map(|d| utc(&d)))),
        "completed": get(&|_, t| opt(t.get_completed().map(|d| utc(&d)))),
    })
}

/// what the zone database says near a local time: every offset o that is in force within a day or so,
/// and the offset that is in force at the instant `local - o`
fn near(local: chrono::NaiveDateTime, tz: chrono_tz::Tz) -> Value {
    use chrono::{Offset, TimeZone};
    let at = |u: chrono::NaiveDateTime| tz.offset_from_utc_datetime(&u).fix().local_minus_utc();
    let shift = |s: i64| local.checked_add_signed(chrono::Duration::seconds(s));
    let offsets: std::collections::BTreeSet<i32> = (-112..=112).filter_map(|k| shift(k * 900)).map(at).collect();
    offsets.iter().filter_map(|o| shift(-i64::from(*o)).map(|u| json!([o, at(u)]))).collect()
}

/// numbers and a zone name
pub fn zone(case: &Value) -> Value {
    let v = &case["v"];
    let n = |k: &str| v[k].as_u64().unwrap_or(0) as u32;
    let y = v["y"].as_i64().unwrap_or(0) as i32;
    let tzname = s(&v["tz"]);
    let tz = tzname.parse::<chrono_tz::Tz>().ok();
    let mut o = json!({});
    o["known"] = Value::from(tz.is_some());
    let naive = chrono::NaiveDate::from_ymd_opt(y, n("m"), n("d")).and_then(|d| d.and_hms_nano_opt(n("H"), n("M"), n("S"), n("ns")));
    o["valid"] = Value::from(naive.is_some());
    if let Some(tz) = tz {
        o["ymdhm"] = guard(|| {
            opt(icalendar::ymd_hm_tzid(y, n("m"), n("d"), n("H"), n("M"), tz).map(|d| cdt(&d)))
        });
        o["ymdhm2"] = guard(|| {
            opt(CalendarDateTime::from_ymd_hm_tzid(y, n("m"), n("d"), n("H"), n("M"), tz).map(|d| cdt(&d)))
        });
    }
    if let Some(naive) = naive {
        let c = CalendarDateTime::WithTimezone { date_time: naive, tzid: tzname.clone() };
        o["utc"] = guard(|| opt(c.try_into_utc().map(|u| utc(&u))));
        o["try"] = guard(|| res(CalendarDateTime::try_from((naive, tzname.as_str())).map(|d| cdt(&d))));
        o["try2"] = guard(|| res(DatePerhapsTime::try_from((naive, tzname.as_str())).map(|d| dpt(&d))));
        if let Some(tz) = tz {
            o["near"] = near(naive, tz);
            o["from"] = guard(|| ok(cdt(&CalendarDateTime::from((naive, tz)))));
            o["from2"] = guard(|| ok(dpt(&DatePerhapsTime::from((naive, tz)))));
            // from an instant: local time and zone name of that instant
            use chrono::TimeZone;
            o["inst"] = guard(|| {
                let u = chrono::Utc.from_utc_datetime(&naive).with_timezone(&tz);
                let (off, there) = (chrono::Offset::fix(u.offset()).local_minus_utc(), near(u.naive_local(), tz));
                let c = CalendarDateTime::from_date_time(u);
                let back = opt(c.try_into_utc().map(|u| utc(&u)));
                json!({"st": "ok", "v": cdt(&c), "back": back, "off": off, "near": there})
            });
        }
    }
    o
}

pub fn trigger(tr: &Trigger) -> Value {
    json!({
        "dur": opt(tr.as_duration().map(dur)),
        "dt": opt(tr.as_date_time().map(cdt)),
        "rel": rel(tr.related()),
    })
}

fn rel(r: Option<Related>) -> &'static str {
    match r {
        Some(Related::Start) => "START",
        Some(Related::End) => "END",
        None => "NONE",
    }
}

pub fn arg_trigger(v: &Value) -> Trigger {
    if v.get("dt").is_some() {
        match (v["direct"].as_i64(), v["dt"]["f"].as_str()) {
            (Some(1), Some("utc")) => return Trigger::from(arg_utc(&v["dt"])),
            (Some(1), Some("floating")) => return Trigger::from(arg_ndt(&v["dt"])),
            _ => {}
        }
        return Trigger::from(arg_cdt(&v["dt"]));
    }
    let d = arg_dur(&v["dur"]);
    match v["via"].as_str() {
        Some("after_start") => Trigger::after_start(d),
        Some("after_end") => Trigger::after_end(d),
        Some("before_start") => Trigger::before_start(d),
        Some("before_end") => Trigger::before_end(d),
        Some("start") => Trigger::from((d, Related::Start)),
        Some("end") => Trigger::from((d, Related::End)),
        _ => Trigger::from(d),
    }
}

pub fn trig(case: &Value) -> Value {
    let tr = arg_trigger(case);
    let p = Property::from(tr.clone());
    let mut o = json!({"tr": trigger(&tr), "prop": property(&p)});
    o["back"] = guard(|| res(Trigger::try_from(&p).map(|x| trigger(&x))));
    o["eq"] = guard(|| res(Trigger::try_from(&p).map(|x| Value::from(x == tr))));
    let wire = write_prop(p);
    if wire["st"] == "ok" {
        let unf = unfold(&s(&wire["v"]));
        o["readback"] = guard(|| match unf.parse::<Property>() {
            Ok(p) => res(Trigger::try_from(&p).map(|x| trigger(&x))),
            Err(_) => err(),
        });
    }
    o["wire"] = wire;
    o["audio"] = guard(|| component(&Alarm::audio(tr.clone())));
    o["display"] = guard(|| component(&Alarm::display(&s(&case["desc"]), tr.clone())));
    o
}

pub fn trigraw(case: &Value) -> Value {
    let p = arg_property(case);
    json!({"back": guard(|| res(Trigger::try_from(&p).map(|x| trigger(&x))))})
}

pub fn vt(case: &Value) -> Value {
    let key = s(&case["key"]);
    let val = case.get("value").map(s);
    let text = s(&case["text"]);
    let mut p = Property::new(key.as_str(), text.as_str());
    if let Some(v) = &val {
        p.add_parameter("VALUE", v);
    }
    let mut o = json!({"vtype": vtype(p.value_type())});
    let head = match &val {
        Some(v) => format!("{key};VALUE={v}"),
        None => key.clone(),
    };
    o["wire"] = write_prop(p);
    let line = format!("{head}:{text}");
    o["pp"] = pp_of(&line);
    if let Some(v) = &val {
        o["from"] = vtype(ValueType::from_str(v).ok());
        let conv = |k: &str| vtype(ValueType::try_from(Parameter::new(k, v)).ok());
        o["param"] = conv("VALUE");
        o["otherparam"] = conv(&s(&case["otherkey"]));
        for (name, ty) in VTYPES {
            if name == v {
                let par = Parameter::from(ty);
                o["topar"] = json!([t(par.key()), t(par.value())]);
                o["again"] = vtype(ValueType::try_from(par).ok());
            }
        }
    }
    o
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

type PS = parser::ParseString<'static>;

/// text of a parse tree, borrowed or owned
fn ps(v: &Value, owned: bool) -> PS {
    if owned {
        PS::from(s(v))
    } else {
        PS::from(leak(s(v)))
    }
}

fn arg_pp(v: &Value, owned: bool) -> parser::Property<'static> {
    let params = v["p"].as_array().into_iter().flatten().map(|x| {
        let has = x[1].as_i64() == Some(1);
        if owned {
            parser::Parameter { key: ps(&x[0], true), val: if has { Some(ps(&x[2], true)) } else { None } }
        } else {
            parser::Parameter::new_ref(leak(s(&x[0])), if has { Some(leak(s(&x[2]))) } else { None })
        }
    });
    let params: Vec<_> = params.collect();
    if owned {
        parser::Property { name: ps(&v["n"], true), val: ps(&v["v"], true), params }
    } else {
        let mut p = parser::Property::new_ref(leak(s(&v["n"])), leak(s(&v["v"])));
        p.params = params;
        p
    }
}

fn arg_node(v: &Value, owned: bool) -> parser::Component<'static> {
    let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    parser::Component {
        name: ps(&v["n"], owned),
        properties: list("props").iter().map(|p| arg_pp(p, owned)).collect(),
        components: list("comps").iter().map(|c| arg_node(c, owned)).collect(),
    }
}

fn through_json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, way: usize) -> Result<T, String> {
    let e = |e: serde_json::Error| e.to_string();
    match way {
        0 => serde_json::from_str(&serde_json::to_string(x).map_err(e)?).map_err(e),
        1 => serde_json::from_value(serde_json::to_value(x).map_err(e)?).map_err(e),
        2 => serde_json::from_slice(&serde_json::to_vec(x).map_err(e)?).map_err(e),
        3 => serde_json::from_reader(serde_json::to_string_pretty(x).map_err(e)?.as_bytes()).map_err(e),
        _ => {
            let mut out = Vec::new();
            serde_json::to_writer(&mut out, x).map_err(e)?;
            serde_json::from_reader(&out[..]).map_err(e)
        }
    }
}

fn json_or(r: Result<Value, String>) -> Value {
    match r {
        Ok(v) => ok(v),
        Err(_) => json!({"st": "jsonerr"}),
    }
}

/// a parse tree made by hand: printed, read, as JSON, converted
pub fn tree(case: &Value) -> Value {
    let owned = case["owned"].as_i64() == Some(1);
    let node = arg_node(&case["tree"], owned);
    let cal = parser::Calendar { properties: node.properties.clone(), components: node.components.clone() };
    let mut pool = Pool::default();
    let mut o = json!({});
    o["kept"] = pool.put(ok(pcalendar(&cal)));
    let print = guard(|| ok(t(&cal.to_string())));
    if print["st"] == "ok" {
        let text = s(&print["v"]);
        let unf = unfold(&text);
        o["rc2"] = pool.put(guard(|| res(parser::read_calendar(&unf).map(|c| pcalendar(&c)))));
        o["cal2"] = pool.put(guard(|| res(Calendar::from_str(&text).map(|c| calendar(&c)))));
    }
    o["print"] = pool.put(print);
    o["pprint"] = guard(|| ok(Value::Array(cal.properties.iter().map(|p| t(&p.to_string())).collect())));
    o["json"] = Value::Array((0..5).map(|w| pool.put(guard(|| json_or(through_json(&cal, w).map(|c| pcalendar(&c)))))).collect());
    o["jprint"] = Value::Array((0..5).map(|w| pool.put(guard(|| json_or(through_json(&cal, w).map(|c| t(&c.to_string())))))).collect());
    o["jeq"] = Value::Array((0..5).map(|w| guard(|| json_or(through_json(&node, w).map(|c| json!(c == node))))).collect());
    o["calp"] = pool.put(guard(|| ok(calendar(&Calendar::from(cal.clone())))));
    o["calv"] = pool.put(guard(|| ok(calendar(&Calendar::from(vec![node.clone()])))));
    o["comps"] = pool.put(guard(|| {
        ok(Value::Array(cal.components.iter().map(|c| cal_component(&CalendarComponent::from(c.clone()))).collect()))
    }));
    o["props"] = pool.put(guard(|| {
        ok(Value::Array(cal.properties.iter().map(|p| property(&Property::from(p.clone()))).collect()))
    }));
    o["t0"] = now();
    o["w"] = pool.put(guard(|| ok(t(&Calendar::from(cal.clone()).to_string()))));
    o["t1"] = now();
    o["pool"] = Value::Array(pool.0);
    o
}

/// everything that can be done with the text of a parse tree
pub fn text(case: &Value) -> Value {
    let text = s(&case["text"]);
    let a = parser::ParseString::from(text.as_str());
    let b = parser::ParseString::from(text.clone());
    let mut pool = Pool::default();
    let same = guard(|| {
        let mut l = vec![
            t(a.as_str()),
            t(a.as_ref()),
            t(&a.to_string()),
            t(&String::from(a.to_owned())),
            t(&String::from(a.clone().into_owned())),
            t(a.clone().as_str()),
            t(b.as_str()),
            t(b.as_ref()),
            t(&b.to_string()),
            t(&String::from(b.to_owned())),
            t(&String::from(b.clone().into_owned())),
            t(&String::from(b.clone())),
        ];
        for (name, ty) in VTYPES {
            if name != "TEXT" {
                l.push(t(a.clone().unescape_by_value_type(ty).as_str()));
            }
        }
        ok(Value::Array(l.into_iter().map(|x| pool.put(x)).collect()))
    });
    let decoded = guard(|| {
        let l = vec![
            t(a.clone().unescape_text().as_str()),
            t(b.clone().unescape_text().as_str()),
            t(a.clone().unescape_by_value_type(ValueType::Text).as_str()),
            t(String::from(b.clone().unescape_by_value_type(ValueType::Text).into_owned()).as_str()),
        ];
        ok(Value::Array(l.into_iter().map(|x| pool.put(x)).collect()))
    });
    let longer = format!("{text}x");
    let eq = guard(|| ok(json!([a == b, b == a, a == text.as_str(), b == text.as_str(), a == a.clone(), b.to_owned() == a])));
    let ne = guard(|| ok(json!([a == longer.as_str(), b == parser::ParseString::from(longer.clone()), a == parser::ParseString::from(longer.as_str())])));
    json!({"same": same, "decoded": decoded, "eq": eq, "ne": ne, "pool": pool.0})
}

/// what the print functions put on stdout
pub fn print(case: &Value) -> Value {
    use std::io::Write;
    let text = s(&case["text"]);
    let run = |kind: &str| {
        let t0 = now();
        let mut child = std::process::Command::new(std::env::current_exe().expect("harness"))
            .args(["print", kind])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("spawn");
        child.stdin.take().expect("stdin").write_all(text.as_bytes()).expect("pipe");
        let out = child.wait_with_output().expect("output");
        let t1 = now();
        match (out.status.success(), String::from_utf8(out.stdout)) {
            (true, Ok(printed)) => json!({"st": "ok", "v": t(&printed), "t0": t0, "t1": t1}),
            (false, _) if out.status.code() == Some(9) => err(),
            _ => json!({"st": "panic"}),
        }
    };
    json!({
        "cal": guard(|| res(Calendar::from_str(&text).map(|c| calendar(&c)))),
        "tree": guard(|| res(parser::read_calendar(&unfold(&text)).map(|c| pcalendar(&c)))),
        "pcal": run("calendar"),
        "ptree": run("parsed"),
        "pcomps": run("components"),
    })
}

/// a calendar of components that have neither UID nor DTSTAMP
fn plain_calendar(kinds: &[&str]) -> Calendar {
    let mut cal = Calendar::empty();
    for k in kinds {
        match *k {
            "VEVENT" => {
                cal.push(icalendar::Event::new());
            }
            "VTODO" => {
                cal.push(icalendar::Todo::new());
            }
            "VVENUE" => {
                cal.push(icalendar::Venue::new());
            }
            other => {
                cal.push(CalendarComponent::from(parser::Component { name: other.into(), properties: vec![], components: vec![] }));
            }
        }
    }
    cal
}

/// the process of its own that `uids` starts
pub fn write_plain(kinds: &str) -> String {
    plain_calendar(&kinds.split(',').filter(|k| !k.is_empty()).collect::<Vec<_>>()).to_string()
}

/// the same calendar written by several threads and several processes, all at once
pub fn uids(case: &Value) -> Value {
    let kinds: Vec<String> = case["kinds"].as_array().into_iter().flatten().map(s).collect();
    let (threads, procs) = (case["threads"].as_u64().unwrap_or(0), case["procs"].as_u64().unwrap_or(0));
    let cal = std::sync::Arc::new(plain_calendar(&kinds.iter().map(String::as_str).collect::<Vec<_>>()));
    let t0 = now();
    let children: Vec<_> = (0..procs)
        .map(|_| {
            std::process::Command::new(std::env::current_exe().expect("harness"))
                .args(["plain", &kinds.join(",")])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("spawn")
        })
        .collect();
    let gate = std::sync::Arc::new(std::sync::Barrier::new(threads as usize));
    let workers: Vec<_> = (0..threads)
        .map(|_| {
            let (cal, gate) = (cal.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                cal.to_string()
            })
        })
        .collect();
    let mut texts: Vec<Value> = workers.into_iter().map(|w| w.join().map_or(json!({"st": "panic"}), |x| ok(t(&x)))).collect();
    for c in children {
        let out = c.wait_with_output().expect("output");
        texts.push(match (out.status.success(), String::from_utf8(out.stdout)) {
            (true, Ok(x)) => ok(t(&x)),
            _ => json!({"st": "panic"}),
        });
    }
    json!({"texts": texts, "t0": t0, "t1": now()})
}
