//! Stands in for the generated bridge: an engine whose programs say what they answer, and which notes what it is asked.
//! A program is {"scale": a, "every": k, "lag": l}: of the messages later than any before, every k-th is answered by
//! (time - l, a * value + number of messages so far), {"refuse": text} is refused.
pub mod ffi {
    use std::collections::BTreeMap;
    use std::sync::Mutex;

    #[derive(Debug)]
    pub struct RtBotMessage {
        pub(crate) timestamp: u64,
        pub(crate) values: Vec<f64>,
    }

    #[derive(Clone, Debug)]
    pub struct Program {
        pub text: String,
        pub scale: f64,
        pub every: u64,
        pub lag: u64,
        pub last: Option<u64>,
        pub count: u64,
    }
    impl Program {
        pub fn make(text: &str) -> Result<Program, String> {
            let j: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
            if let Some(r) = j["refuse"].as_str() {
                return Err(r.to_string());
            }
            Ok(Program {
                text: text.to_string(),
                scale: j["scale"].as_f64().unwrap_or(1.0),
                every: j["every"].as_u64().unwrap_or(1),
                lag: j["lag"].as_u64().unwrap_or(0),
                last: None,
                count: 0,
            })
        }
        pub fn receive(&mut self, t: u64, v: f64) -> Option<(u64, f64)> {
            if self.last.map_or(false, |l| t <= l) {
                return None;
            }
            self.last = Some(t);
            self.count += 1;
            if self.count % self.every == 0 {
                Some((t - self.lag.min(t), self.scale * v + self.count as f64))
            } else {
                None
            }
        }
    }

    #[derive(Default)]
    pub struct Engine {
        pub programs: BTreeMap<String, Program>,
        pub wrong: Vec<String>,
        pub calls: u64,
        pub inside: BTreeMap<String, u64>,
    }
    pub static ENGINE: Mutex<Option<Engine>> = Mutex::new(None);
    pub static PAUSE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

    pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
        let mut e = ENGINE.lock().unwrap_or_else(|e| e.into_inner());
        f(e.get_or_insert_with(Engine::default))
    }
    fn enter(id: &str) {
        with(|e| {
            e.calls += 1;
            let n = e.inside.entry(id.to_string()).or_insert(0);
            *n += 1;
            if *n > 1 {
                e.wrong.push(format!("two calls about pipeline {} at once", id));
            }
        });
        let n = PAUSE.load(std::sync::atomic::Ordering::Relaxed);
        if n > 0 {
            let mut h = id.bytes().fold(n, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
            h = h.wrapping_add(with(|e| e.calls)).wrapping_mul(0x9e3779b97f4a7c15) >> 60;
            for _ in 0..h {
                std::thread::yield_now();
            }
            if h > 12 {
                std::thread::sleep(std::time::Duration::from_micros(h * 3));
            }
        }
    }
    fn leave(id: &str) {
        with(|e| *e.inside.get_mut(id).unwrap() -= 1);
    }

    pub fn create_pipeline(id: String, program: String) -> String {
        enter(&id);
        let r = match Program::make(&program) {
            Err(e) => format!("refused: {}", e),
            Ok(p) => with(|e| {
                if e.programs.contains_key(&id) {
                    return "there is such a program".to_string();
                }
                e.programs.insert(id.clone(), p);
                String::new()
            }),
        };
        leave(&id);
        r
    }
    pub fn delete_pipeline(id: String) -> String {
        enter(&id);
        let r = with(|e| match e.programs.remove(&id) {
            Some(_) => String::new(),
            None => {
                e.wrong.push(format!("pipeline {} is deleted, which does not exist", id));
                "no such program".to_string()
            }
        });
        leave(&id);
        r
    }
    pub fn receive_message_in_pipeline(id: String, message: RtBotMessage) -> Vec<RtBotMessage> {
        enter(&id);
        let r = with(|e| {
            if message.values.len() != 1 {
                e.wrong.push(format!("pipeline {} is sent {} values", id, message.values.len()));
            }
            match e.programs.get_mut(&id) {
                Some(p) => p.receive(message.timestamp, message.values[0]),
                None => {
                    e.wrong.push(format!("a message is sent to pipeline {}, which does not exist", id));
                    None
                }
            }
        });
        leave(&id);
        r.into_iter().map(|(t, v)| RtBotMessage { timestamp: t, values: vec![v] }).collect()
    }
}
