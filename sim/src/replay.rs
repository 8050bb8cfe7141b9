//! Replay files.

use crate::ops::Ev;

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub class: String,
    pub text: String,
    pub evs: Vec<Ev>,
}

pub fn one_line(s: &str) -> String { s.replace('\n', " ").replace('\r', " ") }

impl Replay {
    pub fn text(&self) -> String {
        let mut s = String::new();
        s += "# A simulated execution of fluffy_tribble that violates a property. Run it with: /verif/replay.sh <this file>\n";
        s += "# Every line after 'events' is one delivered event: when (simulated seconds), by which client, with which fault tags\n";
        s += "# (1 duplicated, 2 delayed, 4 reordered, 8 stalled frame, 16 frozen clock, 32 jittered frame), and what.\n";
        s += &format!("property {}\nseed {}\nclass {}\nviolation {}\nevents\n", self.property, self.seed, self.class, one_line(&self.text));
        for e in &self.evs { s += &e.text(); s.push('\n'); }
        s
    }
    pub fn parse(text: &str) -> Result<Replay, String> {
        let mut r = Replay { property: String::new(), seed: 0, class: String::new(), text: String::new(), evs: vec![] };
        let mut events = false;
        for line in text.lines() {
            if line.starts_with('#') || line.trim().is_empty() { continue; }
            if events { r.evs.push(Ev::parse(line)?); continue; }
            if line == "events" { events = true; continue; }
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "property" => r.property = v.into(),
                "seed" => r.seed = v.parse().map_err(|_| "bad seed")?,
                "class" => r.class = v.into(),
                "violation" => r.text = v.into(),
                _ => return Err(format!("unknown line {}", line)),
            }
        }
        Ok(r)
    }
}
