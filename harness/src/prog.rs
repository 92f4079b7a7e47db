//! Programs: sequences of API calls over component registers and calendar registers.
//! After every call the result and the registers it touched are recorded.
use crate::dump::*;
use crate::guard;
use crate::single::{arg_trigger, now, trigger};
use icalendar::{
    Alarm, Calendar, CalendarComponent, Class, Component, Event, EventLike, EventStatus, Property, Todo, TodoStatus,
    Trigger, Venue,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone)]
#[allow(clippy::large_enum_variant)]
enum Reg {
    Event(Event),
    Todo(Todo),
    Venue(Venue),
    Alarm(Alarm),
    Other(CalendarComponent),
}

/// run an expression on whatever component the register holds
macro_rules! on {
    ($reg:expr, $c:ident => $e:expr) => {
        match $reg {
            Reg::Event($c) => $e,
            Reg::Todo($c) => $e,
            Reg::Venue($c) => $e,
            Reg::Alarm($c) => $e,
            Reg::Other(CalendarComponent::Other($c)) => $e,
            Reg::Other(_) => panic!("register"),
        }
    };
}

macro_rules! on_event_like {
    ($reg:expr, $c:ident => $e:expr) => {
        match $reg {
            Reg::Event($c) => $e,
            Reg::Todo($c) => $e,
            _ => panic!("not event-like"),
        }
    };
}

fn dump(r: &Reg) -> Value {
    on!(r, c => component(c))
}

fn to_cal(r: &Reg) -> CalendarComponent {
    match r {
        Reg::Event(e) => e.clone().into(),
        Reg::Todo(e) => e.clone().into(),
        Reg::Venue(e) => e.clone().into(),
        Reg::Alarm(a) => {
            let mut e = Event::new();
            e.append_component(a.clone());
            CalendarComponent::Other(e.components()[0].clone())
        }
        Reg::Other(o) => o.clone(),
    }
}

fn from_cal(c: &CalendarComponent) -> Reg {
    match c {
        CalendarComponent::Event(e) => Reg::Event(e.clone()),
        CalendarComponent::Todo(e) => Reg::Todo(e.clone()),
        CalendarComponent::Venue(e) => Reg::Venue(e.clone()),
        o => Reg::Other(o.clone()),
    }
}

fn class(v: &str) -> Class {
    match v {
        "PUBLIC" => Class::Public,
        "PRIVATE" => Class::Private,
        _ => Class::Confidential,
    }
}

fn class_name(c: Class) -> &'static str {
    match c {
        Class::Public => "PUBLIC",
        Class::Private => "PRIVATE",
        Class::Confidential => "CONFIDENTIAL",
    }
}

fn event_status(v: &str) -> EventStatus {
    match v {
        "TENTATIVE" => EventStatus::Tentative,
        "CONFIRMED" => EventStatus::Confirmed,
        _ => EventStatus::Cancelled,
    }
}

fn event_status_name(v: EventStatus) -> &'static str {
    match v {
        EventStatus::Tentative => "TENTATIVE",
        EventStatus::Confirmed => "CONFIRMED",
        EventStatus::Cancelled => "CANCELLED",
    }
}

fn todo_status(v: &str) -> TodoStatus {
    match v {
        "NEEDS-ACTION" => TodoStatus::NeedsAction,
        "COMPLETED" => TodoStatus::Completed,
        "IN-PROCESS" => TodoStatus::InProcess,
        _ => TodoStatus::Cancelled,
    }
}

fn todo_status_name(v: TodoStatus) -> &'static str {
    match v {
        TodoStatus::NeedsAction => "NEEDS-ACTION",
        TodoStatus::Completed => "COMPLETED",
        TodoStatus::InProcess => "IN-PROCESS",
        TodoStatus::Cancelled => "CANCELLED",
    }
}

fn txt(v: Option<&str>) -> Value {
    opt(v.map(t))
}

fn named(v: Option<&'static str>) -> Value {
    opt(v.map(t))
}

fn number<N: ToString>(v: Option<N>) -> Value {
    opt(v.map(|n| t(&n.to_string())))
}

fn common<C: Component>(c: &C, o: &mut BTreeMap<&'static str, Value>) {
    o.insert("timestamp", opt(c.get_timestamp().map(|d| utc(&d))));
    o.insert("start", opt(c.get_start().map(|d| dpt(&d))));
    o.insert("end", opt(c.get_end().map(|d| dpt(&d))));
    o.insert("priority", number(c.get_priority()));
    o.insert("summary", txt(c.get_summary()));
    o.insert("description", txt(c.get_description()));
    o.insert("uid", txt(c.get_uid()));
    o.insert("sequence", number(c.get_sequence()));
    o.insert("class", named(c.get_class().map(class_name)));
    o.insert("url", txt(c.get_url()));
    o.insert("last_modified", opt(c.get_last_modified().map(|d| utc(&d))));
    o.insert("created", opt(c.get_created().map(|d| utc(&d))));
    o.insert(
        "trigger",
        match c.properties().get("TRIGGER") {
            Some(p) => res(Trigger::try_from(p).map(|x| trigger(&x))),
            None => json!({"st": "none"}),
        },
    );
}

/// every getter the component has
fn getters(r: &Reg, keys: &Value) -> Value {
    let mut o = BTreeMap::new();
    on!(r, c => common(c, &mut o));
    match r {
        Reg::Event(c) => {
            o.insert("status", named(c.get_status().map(event_status_name)));
            o.insert("location", txt(c.get_location()));
        }
        Reg::Todo(c) => {
            o.insert("status", named(c.get_status().map(todo_status_name)));
            o.insert("location", txt(c.get_location()));
            o.insert("percent", number(c.get_percent_complete()));
            o.insert("due", opt(c.get_due().map(|d| dpt(&d))));
            o.insert("completed", opt(c.get_completed().map(|d| utc(&d))));
        }
        Reg::Venue(c) => {
            o.insert("street_address", txt(c.get_street_address()));
            o.insert("extended_address", txt(c.get_extended_address()));
            o.insert("locality", txt(c.get_locality()));
            o.insert("region", txt(c.get_region()));
            o.insert("country", txt(c.get_country()));
            o.insert("postal_code", txt(c.get_postal_code()));
        }
        _ => {}
    }
    let list: Vec<Value> = o.into_iter().map(|(k, v)| json!([k, v])).collect();
    let vals: Vec<Value> = keys
        .as_array()
        .into_iter()
        .flatten()
        .map(|k| {
            let key = s(k);
            let a = on!(r, c => txt(c.property_value(&key)));
            json!([k, a])
        })
        .collect();
    json!({"get": list, "val": vals})
}

fn texts(r: &Reg) -> Value {
    let t0 = now();
    let a = on!(r, c => t(&Component::to_string(c)));
    let b = on!(r, c => res(c.try_into_string().map(|x| t(&x))));
    let c = match r.clone() {
        Reg::Event(c) => res(TryInto::<String>::try_into(c).map(|x| t(&x))),
        Reg::Todo(c) => res(TryInto::<String>::try_into(c).map(|x| t(&x))),
        Reg::Venue(c) => res(TryInto::<String>::try_into(c).map(|x| t(&x))),
        Reg::Alarm(c) => res(TryInto::<String>::try_into(c).map(|x| t(&x))),
        other => on!(&other, c => res(c.try_into_string().map(|x| t(&x)))),
    };
    let mut full = String::new();
    let d = on!(r, c => res(c.fmt_write(&mut full).map(|_| t(&full))));
    let t1 = now();
    let lim = on!(r, c => limited(&full, |mut out| c.fmt_write(&mut out)));
    json!({"t0": t0, "a": ok(a), "b": b, "c": c, "d": d, "t1": t1, "lim": lim})
}

fn cal_get(c: &Calendar, keys: &Value) -> Value {
    let vals: Vec<Value> =
        keys.as_array().into_iter().flatten().map(|k| json!([k, txt(c.property_value(&s(k)))])).collect();
    let iter: Vec<Value> = c.iter().map(cal_component).collect();
    let index: Vec<Value> = (0..c.len()).map(|i| cal_component(&c[i])).collect();
    let asref: &[CalendarComponent] = c.as_ref();
    let variants: Vec<Value> = c
        .iter()
        .map(|x| {
            let e = x.as_event().map(component);
            let td = x.as_todo().map(component);
            json!({"event": opt(e), "todo": opt(td)})
        })
        .collect();
    json!({
        "name": txt(c.get_name()),
        "description": txt(c.get_description()),
        "timezone": txt(c.get_timezone()),
        "ttl": opt(c.get_ttl().map(|d| dur(&d))),
        "val": vals,
        "len": c.len(),
        "empty": c.is_empty(),
        "first": opt(c.first().map(cal_component)),
        "last": opt(c.last().map(cal_component)),
        "iter": iter,
        "index": index,
        "asref": asref.iter().map(cal_component).collect::<Vec<_>>(),
        "as": variants,
    })
}

fn cal_write(c: &Calendar) -> Value {
    let t0 = now();
    let a = t(&c.to_string());
    let b = res(TryInto::<String>::try_into(c).map(|x| t(&x)));
    let full = format!("{c}");
    let t1 = now();
    let lim = limited(&full, |out| write!(out, "{c}"));
    json!({"t0": t0, "a": ok(a), "b": b, "d": ok(t(&full)), "t1": t1, "lim": lim})
}

/// the same content lines, transported differently
fn transport(text: &str, tr: &Value) -> String {
    let n = |k: &str| tr[k].as_u64().unwrap_or(0) as usize;
    let eol = if n("lf") == 1 { "\n" } else { "\r\n" };
    let ws = if n("tab") == 1 { "\t" } else { " " };
    let logical = text.replace("\r\n ", "");
    let mut out = String::new();
    for line in logical.split("\r\n") {
        if line.is_empty() {
            continue;
        }
        let chars: Vec<char> = line.chars().collect();
        let w = n("width");
        for (i, c) in chars.iter().enumerate() {
            if w > 0 && i > 0 && i % w == 0 {
                out.push_str(eol);
                out.push_str(ws);
            }
            out.push(*c);
        }
        out.push_str(eol);
        for _ in 0..n("blank") {
            out.push_str(eol);
        }
    }
    out
}

/// an iterator that says nothing else than asked about its length
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// the items by way of different kinds of iterators
fn pour<T>(items: Vec<CalendarComponent>, via: &str, to: impl FnOnce(&mut dyn Iterator<Item = CalendarComponent>) -> T) -> T {
    let n = items.len();
    match via {
        "filter" => to(&mut items.into_iter().filter(|_| true)),
        "unknown" => to(&mut Hinted(items.into_iter(), (0, None))),
        "wide" => to(&mut Hinted(items.into_iter(), (0, Some(usize::MAX)))),
        "least" => to(&mut Hinted(items.into_iter(), (n / 2, None))),
        "queue" => to(&mut items.into_iter().collect::<std::collections::VecDeque<_>>().into_iter()),
        "chain" => {
            let mut head = items;
            let tail = head.split_off(n / 2);
            to(&mut head.into_iter().chain(tail))
        }
        _ => to(&mut items.into_iter()),
    }
}

/// which of n elements the call is about
fn index(op: &Value, n: usize) -> usize {
    (op["i"].as_u64().expect("index") as usize - 1) % n
}

struct Machine {
    regs: BTreeMap<u64, Reg>,
    cals: BTreeMap<u64, Calendar>,
}

impl Machine {
    fn reg(&self, op: &Value, k: &str) -> &Reg {
        self.regs.get(&op[k].as_u64().expect("register")).expect("component register")
    }
    fn reg_mut(&mut self, op: &Value, k: &str) -> &mut Reg {
        self.regs.get_mut(&op[k].as_u64().expect("register")).expect("component register")
    }
    fn cal(&self, op: &Value, k: &str) -> &Calendar {
        self.cals.get(&op[k].as_u64().expect("register")).expect("calendar register")
    }
    fn cal_mut(&mut self, op: &Value, k: &str) -> &mut Calendar {
        self.cals.get_mut(&op[k].as_u64().expect("register")).expect("calendar register")
    }
    fn items(&self, op: &Value) -> Vec<CalendarComponent> {
        op["rs"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|r| to_cal(self.regs.get(&r.as_u64().expect("register")).expect("component register")))
            .collect()
    }

    fn step(&mut self, op: &Value) -> Value {
        let none = json!({"st": "done"});
        match op["op"].as_str().expect("op") {
            "new" => {
                let kind = op["kind"].as_str().expect("kind");
                let reg = match kind {
                    "event" => Reg::Event(Event::new()),
                    "todo" => Reg::Todo(Todo::new()),
                    "venue" => Reg::Venue(Venue::new()),
                    "audio" => Reg::Alarm(Alarm::audio(arg_trigger(&op["trig"]))),
                    "display" => Reg::Alarm(Alarm::display(&s(&op["desc"]), arg_trigger(&op["trig"]))),
                    // a component of another kind is only made by reading one
                    _ => {
                        let name = s(&op["name"]);
                        let text = format!("BEGIN:{name}\r\nEND:{name}\r\n");
                        from_cal(&text.parse::<CalendarComponent>().expect("component"))
                    }
                };
                self.regs.insert(op["r"].as_u64().expect("register"), reg);
            }
            "append" => {
                let p = arg_property(&op["p"]);
                let plain = p.params().is_empty();
                match (op["via"].as_str(), plain) {
                    (Some("add"), true) => on!(self.reg_mut(op, "r"), c => {
                        c.add_property(p.key(), p.value());
                    }),
                    #[allow(deprecated)]
                    (Some("pre"), true) => on!(self.reg_mut(op, "r"), c => {
                        c.add_property_pre_alloc(p.key().to_owned(), p.value().to_owned());
                    }),
                    (Some("tuple"), true) => on!(self.reg_mut(op, "r"), c => {
                        c.append_property((p.key(), p.value()));
                    }),
                    _ => on!(self.reg_mut(op, "r"), c => {
                        c.append_property(p);
                    }),
                }
            }
            // a property made from a value of another type
            "into" => {
                let v = op["v"].as_str().unwrap_or("");
                let p: Property = match op["what"].as_str().expect("what") {
                    "class" => class(v).into(),
                    "event_status" => event_status(v).into(),
                    "todo_status" => todo_status(v).into(),
                    "duration" => arg_dur(&op["dur"]).into(),
                    "trigger" => arg_trigger(&op["trig"]).into(),
                    _ => panic!("what"),
                };
                if op["multi"].as_i64() == Some(1) {
                    on!(self.reg_mut(op, "r"), c => { c.append_multi_property(p); });
                } else {
                    on!(self.reg_mut(op, "r"), c => { c.append_property(p); });
                }
            }
            "multi" => {
                let p = arg_property(&op["p"]);
                if op["via"] == "add" && p.params().is_empty() {
                    on!(self.reg_mut(op, "r"), c => { c.add_multi_property(p.key(), p.value()); });
                } else {
                    on!(self.reg_mut(op, "r"), c => { c.append_multi_property(p); });
                }
            }
            "child" => {
                let child = self.reg(op, "from").clone();
                let reg = self.reg_mut(op, "r");
                match child {
                    Reg::Alarm(a) if op["via"] == "alarm" => on_event_like!(reg, c => { c.alarm(a); }),
                    Reg::Event(x) => on!(reg, c => { c.append_component(x); }),
                    Reg::Todo(x) => on!(reg, c => { c.append_component(x); }),
                    Reg::Venue(x) => on!(reg, c => { c.append_component(x); }),
                    Reg::Alarm(x) => on!(reg, c => { c.append_component(x); }),
                    Reg::Other(CalendarComponent::Other(x)) => on!(reg, c => { c.append_component(x); }),
                    Reg::Other(_) => panic!("register"),
                }
            }
            "text" => {
                let v = s(&op["v"]);
                let reg = self.reg_mut(op, "r");
                match op["f"].as_str().expect("field") {
                    "summary" => on!(reg, c => { c.summary(&v); }),
                    "description" => on!(reg, c => { c.description(&v); }),
                    "uid" => on!(reg, c => { c.uid(&v); }),
                    "url" => on!(reg, c => { c.url(&v); }),
                    "location" => on_event_like!(reg, c => { c.location(&v); }),
                    f => match reg {
                        Reg::Venue(c) => {
                            match f {
                                "street_address" => c.street_address(&v),
                                "extended_address" => c.extended_address(&v),
                                "locality" => c.locality(&v),
                                "region" => c.region(&v),
                                "country" => c.country(&v),
                                "postal_code" => c.postal_code(&v),
                                _ => panic!("field"),
                            };
                        }
                        _ => panic!("field"),
                    },
                }
            }
            "venue" => {
                let (l, u) = (s(&op["v"]), s(&op["uid"]));
                on_event_like!(self.reg_mut(op, "r"), c => { c.venue(&l, &u); });
            }
            "num" => {
                let v: u32 = s(&op["v"]).parse().expect("number");
                let reg = self.reg_mut(op, "r");
                match op["f"].as_str().expect("field") {
                    "priority" => on!(reg, c => { c.priority(v); }),
                    "sequence" => on!(reg, c => { c.sequence(v); }),
                    _ => match reg {
                        Reg::Todo(c) => {
                            c.percent_complete(v as u8);
                        }
                        _ => panic!("field"),
                    },
                }
            }
            "class" => {
                let v = class(op["v"].as_str().expect("class"));
                on!(self.reg_mut(op, "r"), c => { c.class(v); });
            }
            "status" => {
                let v = op["v"].as_str().expect("status");
                match self.reg_mut(op, "r") {
                    Reg::Event(c) => {
                        c.status(event_status(v));
                    }
                    Reg::Todo(c) => {
                        c.status(todo_status(v));
                    }
                    _ => panic!("status"),
                }
            }
            "date" => {
                let v = &op["v"];
                let direct = op["via"] == "direct";
                let reg = self.reg_mut(op, "r");
                macro_rules! set {
                    ($c:ident . $m:ident) => {
                        match (direct, v["f"].as_str()) {
                            (true, Some("date")) => {
                                $c.$m(arg_nd(v));
                            }
                            (true, Some("floating")) => {
                                $c.$m(arg_ndt(v));
                            }
                            (true, Some("utc")) => {
                                $c.$m(arg_utc(v));
                            }
                            (true, _) => {
                                $c.$m(arg_cdt(v));
                            }
                            _ => {
                                $c.$m(arg_dpt(v));
                            }
                        }
                    };
                }
                match op["f"].as_str().expect("field") {
                    "starts" => on_event_like!(reg, c => set!(c.starts)),
                    "ends" => on_event_like!(reg, c => set!(c.ends)),
                    _ => match reg {
                        Reg::Todo(c) => set!(c.due),
                        _ => panic!("field"),
                    },
                }
            }
            "allday" => on_event_like!(self.reg_mut(op, "r"), c => { c.all_day(arg_nd(&op["v"])); }),
            "stamp" => {
                let v = arg_utc(&op["v"]);
                let reg = self.reg_mut(op, "r");
                match op["f"].as_str().expect("field") {
                    "timestamp" => on!(reg, c => { c.timestamp(v); }),
                    "last_modified" => on!(reg, c => { c.last_modified(v); }),
                    "created" => on!(reg, c => { c.created(v); }),
                    _ => match reg {
                        Reg::Todo(c) => {
                            c.completed(v);
                        }
                        _ => panic!("field"),
                    },
                }
            }
            "durrep" => {
                let d = arg_dur(&op["dur"]);
                let n: u32 = s(&op["n"]).parse().expect("number");
                let a = match self.reg(op, "r") {
                    Reg::Alarm(a) => a.clone().duration_and_repeat(d, n),
                    _ => panic!("alarm"),
                };
                *self.reg_mut(op, "r") = Reg::Alarm(a);
            }
            "done" => {
                let d = match self.reg_mut(op, "r") {
                    Reg::Event(c) => Reg::Event(c.done()),
                    Reg::Todo(c) => Reg::Todo(c.done()),
                    Reg::Venue(c) => Reg::Venue(c.done()),
                    Reg::Alarm(c) => Reg::Alarm(c.done()),
                    Reg::Other(_) => panic!("done"),
                };
                self.regs.insert(op["to"].as_u64().expect("register"), d);
            }
            "clone" => {
                let d = self.reg(op, "r").clone();
                self.regs.insert(op["to"].as_u64().expect("register"), d);
            }
            "get" => return getters(self.reg(op, "r"), &op["keys"]),
            "ser" => return texts(self.reg(op, "r")),
            // ------------------------------------------------ calendars
            "cnew" => {
                let c = match op["via"].as_str().expect("via") {
                    "new" => Calendar::new(),
                    "default" => Calendar::default(),
                    _ => Calendar::empty(),
                };
                self.cals.insert(op["c"].as_u64().expect("register"), c);
            }
            "cfrom" => {
                let items = self.items(op);
                let c: Calendar = match op["via"].as_str().expect("via") {
                    "one" => Calendar::from(items[0].clone()),
                    "array" => match items.len() {
                        0 => Calendar::from([] as [CalendarComponent; 0]),
                        1 => Calendar::from([items[0].clone()]),
                        2 => Calendar::from([items[0].clone(), items[1].clone()]),
                        _ => Calendar::from([items[0].clone(), items[1].clone(), items[2].clone()]),
                    },
                    via => pour(items, via, |x| x.collect()),
                };
                self.cals.insert(op["c"].as_u64().expect("register"), c);
            }
            "push" => {
                let r = self.reg(op, "r").clone();
                let c = self.cal_mut(op, "c");
                #[allow(deprecated)]
                if op["via"] == "add" {
                    c.add(to_cal(&r));
                } else {
                    match r {
                        Reg::Event(x) => c.push(x),
                        Reg::Todo(x) => c.push(x),
                        Reg::Venue(x) => c.push(x),
                        r => c.push(to_cal(&r)),
                    };
                }
            }
            "extend" => {
                let items = self.items(op);
                let events: Option<Vec<Event>> = items.iter().map(|x| x.as_event().cloned()).collect();
                let c = self.cal_mut(op, "c");
                match events {
                    Some(events) if op["via"] == "events" => c.extend(events),
                    _ => pour(items, op["via"].as_str().expect("via"), |x| c.extend(x)),
                }
            }
            "cappend" => {
                let from = op["from"].as_u64().expect("register");
                let mut other = self.cals.remove(&from).expect("calendar register");
                self.cal_mut(op, "c").append(&mut other);
                self.cals.insert(from, other);
            }
            "cprop" => {
                let p = arg_property(&op["p"]);
                self.cal_mut(op, "c").append_property(p);
            }
            "cset" => {
                let v = s(&op["v"]);
                let c = self.cal_mut(op, "c");
                match op["f"].as_str().expect("field") {
                    "name" => c.name(&v),
                    "description" => c.description(&v),
                    _ => c.timezone(&v),
                };
            }
            "ttl" => {
                let d = arg_dur(&op["dur"]);
                self.cal_mut(op, "c").ttl(&d);
            }
            "cdone" => {
                let d = self.cal_mut(op, "c").done();
                self.cals.insert(op["to"].as_u64().expect("register"), d);
            }
            // the lists of a calendar are public
            "cdrop" => {
                let c = self.cal_mut(op, "c");
                if !c.components.is_empty() {
                    let at = index(op, c.components.len());
                    c.components.remove(at);
                }
            }
            "cput" => {
                let r = to_cal(self.reg(op, "r"));
                let c = self.cal_mut(op, "c");
                let at = index(op, c.components.len() + 1);
                c.components.insert(at, r);
            }
            "cedit" => {
                let p = arg_property(&op["p"]);
                let c = self.cal_mut(op, "c");
                if !c.components.is_empty() {
                    let at = index(op, c.components.len());
                    match &mut c.components[at] {
                        CalendarComponent::Event(x) => drop(x.append_property(p)),
                        CalendarComponent::Todo(x) => drop(x.append_property(p)),
                        CalendarComponent::Venue(x) => drop(x.append_property(p)),
                        CalendarComponent::Other(x) => drop(x.append_property(p)),
                        _ => panic!("another kind of component"),
                    }
                }
            }
            "crev" => self.cal_mut(op, "c").components.reverse(),
            "pdrop" => {
                let c = self.cal_mut(op, "c");
                if !c.properties.is_empty() {
                    let at = index(op, c.properties.len());
                    c.properties.remove(at);
                }
            }
            "pput" => {
                let p = arg_property(&op["p"]);
                let c = self.cal_mut(op, "c");
                let at = index(op, c.properties.len() + 1);
                c.properties.insert(at, p);
            }
            "cget" => return cal_get(self.cal(op, "c"), &op["keys"]),
            "cwrite" => return cal_write(self.cal(op, "c")),
            "creread" => {
                let t0 = now();
                let text = self.cal(op, "c").to_string();
                let t1 = now();
                let used = transport(&text, &op["tr"]);
                return match used.parse::<Calendar>() {
                    Ok(back) => {
                        let eq = back == *self.cal(op, "c");
                        self.cals.insert(op["to"].as_u64().expect("register"), back);
                        json!({"st": "ok", "used": t(&used), "eq": eq, "t0": t0, "t1": t1})
                    }
                    Err(_) => json!({"st": "err", "used": t(&used), "t0": t0, "t1": t1}),
                };
            }
            // a component taken out of a calendar
            "take" => {
                let i = op["i"].as_u64().expect("index") as usize;
                let r = from_cal(&self.cal(op, "c")[i - 1]);
                self.regs.insert(op["to"].as_u64().expect("register"), r);
            }
            other => panic!("unknown op {other}"),
        }
        none
    }

    /// the registers named by the call, as far as they hold something
    fn posts(&self, op: &Value) -> Value {
        let calendars = op.get("c").is_some();
        let mut o = serde_json::Map::new();
        for k in ["r", "c", "from", "to"] {
            if let Some(i) = op.get(k).and_then(Value::as_u64) {
                let cal = match k {
                    "r" => false,
                    "c" => true,
                    "from" => calendars,
                    _ => calendars && op["op"] != "take",
                };
                let held = if cal { self.cals.get(&i).map(calendar) } else { self.regs.get(&i).map(dump) };
                if let Some(v) = held {
                    o.insert(k.into(), v);
                }
            }
        }
        Value::Object(o)
    }
}

pub fn prog(case: &Value) -> Value {
    let mut m = Machine { regs: BTreeMap::new(), cals: BTreeMap::new() };
    let mut log = Vec::new();
    for op in case["ops"].as_array().into_iter().flatten() {
        let r = guard(|| m.step(op));
        let panicked = r["st"] == "panic";
        let ends = panicked || r["st"] == "err";
        log.push(json!({"op": op, "r": r, "post": if panicked { json!({}) } else { m.posts(op) }}));
        if ends {
            break;
        }
    }
    json!({ "log": log })
}
