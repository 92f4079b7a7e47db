//! What else the process does meanwhile (HARNESS_NOISE=1): another thread builds, writes and reads
//! calendars that have nothing to do with the cases. Nothing of it is recorded, and nothing of it
//! may show in what is.
use icalendar::{Alarm, Calendar, Component, Event, EventLike, Property, Todo};

fn round(i: u64) {
    let mut p = Property::new("X-NOISE", format!("noise;,\\\n{i}"));
    p.add_parameter("X-NOISY", &"n".repeat((i % 90) as usize));
    let mut cal = Calendar::new();
    cal.name("noise").append_property(p.done());
    for k in 0..i % 4 {
        let e = Event::new().summary("noise").location(&"noise ".repeat(k as usize * 9)).alarm(Alarm::display("noise", -chrono::Duration::seconds(i as i64))).done();
        let td = Todo::new().summary("noise, too").percent_complete(k as u8).done();
        cal.push(e).push(td);
    }
    let text = cal.to_string();
    let _ = text.parse::<Calendar>().map(|c| c == cal);
    let _ = icalendar::parser::read_calendar(&icalendar::parser::unfold(&text)).map(|v| v.to_string());
    let _ = "BEGIN:NOISE\nnoise\nEND:NOIS".parse::<Calendar>();
}

pub fn start() {
    if std::env::var("HARNESS_NOISE").as_deref() != Ok("1") {
        return;
    }
    std::thread::spawn(|| {
        for i in 0.. {
            let _ = std::panic::catch_unwind(|| round(i));
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
    });
}
