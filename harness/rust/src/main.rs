//! P27: the registry of pipelines and the commands of the Redis module, against a model.
//! pipelines_registry.rs, program_validator.rs and commands/ are the repository's own.
#![allow(warnings)]
mod commands {
    pub mod rtbot_run;
    pub mod rtbot_xrun;
}
mod cxx_bindings;
mod monitor;
mod pipelines_registry;
mod program_validator;

use cxx_bindings::ffi::{self, Program};
use monitor::{Ctx, Rng, Violated};
use pipelines_registry::{PipelinesRegistry, PIPELINES_REGISTRY};
use redis_module::{Context, NotifyEvent, RedisError, RedisResult, RedisString, RedisValue};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

static DOING: Mutex<String> = Mutex::new(String::new());
pub fn doing() -> String {
    DOING.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
fn now(s: String) {
    *DOING.lock().unwrap_or_else(|e| e.into_inner()) = s;
}
fn fail<T>(key: &str, detail: String) -> Result<T, Violated> {
    Err(Violated(key.to_string(), detail))
}

type Pipes = BTreeMap<String, BTreeMap<String, (String, Program)>>;

fn program_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => r#"{"refuse": "no"}"#.to_string(),
        1 => "{".to_string(),
        _ => format!(r#"{{"scale": {}, "every": {}, "lag": {}}}"#, r.below(5), 1 + r.below(3), r.below(3)),
    }
}

/// the engine holds exactly the programs of the model
fn same_programs(pipes: &Pipes, when: &str) -> Result<(), Violated> {
    let (live, wrong) = ffi::with(|e| (e.programs.clone(), e.wrong.clone()));
    if let Some(w) = wrong.first() {
        return fail("engine misused", format!("{} ({})", w, when));
    }
    let mut want: BTreeMap<String, Program> = BTreeMap::new();
    for m in pipes.values() {
        for (id, p) in m.values() {
            want.insert(id.clone(), p.clone());
        }
    }
    for (id, p) in &live {
        match want.get(id) {
            None => return fail("left behind", format!("pipeline {} ({}) is alive, but no pair of keys is left to reach it ({})", id, p.text, when)),
            Some(q) if (&q.text, q.last, q.count) != (&p.text, p.last, p.count) => {
                return fail("messages", format!("pipeline {} has seen {} messages up to {:?} instead of {} up to {:?} ({})", id, p.count, p.last, q.count, q.last, when))
            }
            _ => {}
        }
    }
    for (id, p) in &want {
        if !live.contains_key(id) {
            return fail("lost", format!("pipeline {} ({}) is gone ({})", id, p.text, when));
        }
    }
    Ok(())
}

fn first_number(s: &str) -> Option<u64> {
    s.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).and_then(|x| x.parse().ok())
}

type Answer = BTreeMap<String, Vec<(u64, u64)>>;
fn answer(m: BTreeMap<String, Vec<ffi::RtBotMessage>>) -> Answer {
    m.into_iter().map(|(k, v)| (k, v.iter().map(|x| (x.timestamp, x.values.get(0).copied().unwrap_or(f64::NAN).to_bits())).collect())).collect()
}
fn model_receive(pipes: &mut Pipes, key: &str, t: u64, v: f64) -> Answer {
    let mut r = Answer::new();
    if let Some(m) = pipes.get_mut(key) {
        for (out, (_, p)) in m.iter_mut() {
            r.insert(out.clone(), p.receive(t, v).into_iter().map(|(t, v)| (t, v.to_bits())).collect());
        }
    }
    r
}

/// different keys, some of which continue or resemble others
fn some_keys(r: &mut monitor::Rng, n: usize) -> Vec<String> {
    let stems = ["a", "b", "temp", "ab", "k", "{u}:s"];
    let ends = ["", "0", "1", "10", "-", ":", ":ps", " ", "a", "b", "A", "é", "~", "*", "\u{10ffff}", "!", "ab"];
    let stem = stems[r.below(6)];
    let mut keys: Vec<String> = vec![];
    while keys.len() < n {
        let mut k = if r.chance(0.8) { stem } else { stems[r.below(6)] }.to_string();
        for _ in 0..[0, 1, 1, 1, 2][r.below(5)] {
            k.push_str(ends[r.below(ends.len())]);
        }
        if r.chance(0.05) {
            k = k.to_uppercase();
        }
        if r.chance(0.03) {
            k = k.repeat(100);
        }
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    keys
}

/// one history of the registry
fn registry_case(c: &mut Ctx) -> Result<(), Violated> {
    let reg = PipelinesRegistry::new();
    let mut pipes = Pipes::new();
    // now and then one key feeds dozens of others, or dozens of keys are fed
    let (many_outs, many_ins) = (c.rng.chance(0.04), c.rng.chance(0.03));
    let steps = if many_outs || many_ins { 150 + c.rng.below(100) } else { 20 + c.rng.below(40) };
    let mut t = 1000;
    let mut shape = String::new();
    let n_ins = if many_ins { 40 } else { 3 };
    let ins = some_keys(&mut c.rng, n_ins);
    let n_outs = if many_outs { 40 } else { 2 };
    let mut outs = some_keys(&mut c.rng, n_outs);
    outs.extend(ins[..2].iter().cloned());
    let mut widest = 0;
    for step in 0..steps {
        let i = ins[if many_outs && c.rng.chance(0.9) { 0 } else { c.rng.below(ins.len()) }].to_string();
        let o = outs[c.rng.below(outs.len())].to_string();
        widest = widest.max(pipes.get(&i).map_or(0, |m| m.len() as u64)).max(pipes.len() as u64);
        let growing = (many_outs || many_ins) && step < 120;
        match if growing && c.rng.chance(0.8) { 0 } else { c.rng.below(10) } {
            0..=2 => {
                let text = program_text(&mut c.rng);
                c.note(format!("create {}>{} {}", i, o, text));
                now(c.about.clone());
                let taken = pipes.get(&i).map_or(false, |m| m.contains_key(&o));
                match reg.create(&text, &i, &o) {
                    Ok(_) if taken => return fail("create", "a second pipeline between the same keys is not refused".into()),
                    Ok(id) => match Program::make(&text) {
                        Err(_) => return fail("create", "a program the engine refuses is registered".into()),
                        Ok(p) => {
                            if pipes.values().any(|m| m.values().any(|x| x.0 == id)) {
                                return fail("create", format!("the id {} is given twice", id));
                            }
                            pipes.entry(i).or_default().insert(o, (id, p));
                            shape.push('c');
                        }
                    },
                    Err(e) => {
                        if !taken && Program::make(&text).is_ok() {
                            return fail("create", format!("a fresh pair of keys is refused: {}", e));
                        }
                        c.count("refusals", 1);
                        shape.push('r');
                    }
                }
            }
            3 => {
                c.note(format!("delete {}>{}", i, o));
                now(c.about.clone());
                let there = pipes.get_mut(&i).and_then(|m| m.remove(&o)).is_some();
                let r = reg.delete(&i, &o);
                if r.is_ok() != there {
                    return fail("delete", format!("deleting the pair, which {}, says {:?}", if there { "exists" } else { "does not exist" }, r.map_err(|e| e.to_string())));
                }
                shape.push(if there { 'd' } else { '-' });
            }
            4 if !growing => {
                c.note(format!("delete all from {}", i));
                now(c.about.clone());
                let n = pipes.remove(&i).map_or(0, |m| m.len() as u64);
                match reg.delete_by_input_key(&i) {
                    Ok(s) if first_number(&s) == Some(n) => {}
                    r => return fail("delete", format!("deleting the {} pipelines of {} says {:?}", n, i, r.map_err(|e| e.to_string()))),
                }
                shape.push(if n > 1 { 'D' } else { '.' });
            }
            _ => {
                t = match c.rng.below(8) {
                    0 => t,
                    1 => t - 1,
                    2 => t + (1 << 33),
                    _ => t + 1 + c.rng.below(9) as u64,
                };
                let v = c.rng.below(1000) as f64 / 8.0 - 30.0;
                c.note(format!("send {} ({}, {})", i, t, v));
                now(c.about.clone());
                let want = model_receive(&mut pipes, &i, t, v);
                match reg.receive(&i, t, vec![v]) {
                    Err(e) => return fail("receive", format!("a message is refused: {}", e)),
                    Ok(m) => {
                        let got = answer(m);
                        if got != want {
                            return fail("receive", format!("the message is answered by {:?} instead of {:?}", got, want));
                        }
                        c.count("messages_compared", got.values().map(|v| v.len() as u64).sum());
                    }
                }
                shape.push('s');
            }
        }
        same_programs(&pipes, "after the last step")?;
    }
    c.count("registry_steps", steps as u64);
    if widest > 16 {
        c.count("registries_of_more_than_16", 1);
    }
    c.nontrivial(&shape);
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Create(String, String, String),
    Delete(String, String),
    DeleteAll(String),
    Send(String, u64, f64),
}
#[derive(Clone, Debug, PartialEq)]
enum Reply {
    Id(String),
    Done(u64),
    Refused,
    Answer(Answer),
}
struct Event {
    op: Op,
    reply: Reply,
    from: u64,
    to: u64,
    thread: usize,
}

fn explains(h: &[Event], done: u64, pipes: &Pipes, seen: &mut HashSet<String>, live: &BTreeSet<String>, budget: &mut u64) -> bool {
    if done == (1u64 << h.len()) - 1 {
        let ids: BTreeSet<String> = pipes.values().flat_map(|m| m.values().map(|x| x.0.clone())).collect();
        return ids == *live;
    }
    if *budget == 0 {
        return true;
    }
    *budget -= 1;
    let key = format!("{} {:?}", done, pipes.iter().map(|(k, m)| (k, m.iter().map(|(o, x)| (o, &x.0, x.1.last, x.1.count)).collect::<Vec<_>>())).collect::<Vec<_>>());
    if !seen.insert(key) {
        return false;
    }
    let first_end = h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.to).min().unwrap();
    for (i, e) in h.iter().enumerate() {
        if done >> i & 1 == 1 || e.from > first_end {
            continue;
        }
        let mut p = pipes.clone();
        let fits = match (&e.op, &e.reply) {
            (Op::Create(i, o, _), Reply::Refused) => p.get(i).map_or(false, |m| m.contains_key(o)),
            (Op::Create(i, o, text), Reply::Id(id)) => {
                let m = p.entry(i.clone()).or_default();
                m.insert(o.clone(), (id.clone(), Program::make(text).unwrap_or_else(|_| unreachable!()))).is_none()
            }
            (Op::Delete(i, o), r) => p.get_mut(i).and_then(|m| m.remove(o)).is_some() == (*r == Reply::Done(1)),
            (Op::DeleteAll(i), Reply::Done(n)) => p.remove(i).map_or(0, |m| m.len() as u64) == *n,
            (Op::Send(i, t, v), Reply::Answer(a)) => model_receive(&mut p, i, *t, *v) == *a,
            _ => false,
        };
        if fits && explains(h, done | 1 << i, &p, seen, live, budget) {
            return true;
        }
    }
    false
}

/// several threads on one registry: there is an order of what they did that explains every answer
fn concurrent_case(c: &mut Ctx) -> Result<(), Violated> {
    let reg = Arc::new(PipelinesRegistry::new());
    let clock = Arc::new(AtomicU64::new(0));
    let threads = 2 + c.rng.below(3);
    let each = 18 / threads;
    ffi::PAUSE.store(1 + c.rng.next() % 1000, Ordering::Relaxed);
    let (ins, outs) = (some_keys(&mut c.rng, 2), some_keys(&mut c.rng, 2));
    let mut running = vec![];
    let mut plan = vec![];
    for th in 0..threads {
        let mut ops = vec![];
        for k in 0..each {
            let i = ins[c.rng.below(10) / 7].to_string();
            let o = outs[c.rng.below(2)].to_string();
            ops.push(match c.rng.below(8) {
                0..=2 => Op::Create(i, o, format!(r#"{{"scale": 1, "every": {}}}"#, 1 + c.rng.below(2))),
                3 => Op::Delete(i, o),
                4 => Op::DeleteAll(i),
                _ => Op::Send(i, 1 + c.rng.below(30) as u64, (100 * th + k) as f64),
            });
        }
        plan.push(ops);
    }
    c.note(format!("threads {:?}", plan));
    now(c.about.clone());
    for (th, ops) in plan.into_iter().enumerate() {
        let (reg, clock) = (reg.clone(), clock.clone());
        running.push(std::thread::spawn(move || {
            let mut h = vec![];
            for op in ops {
                let from = clock.fetch_add(1, Ordering::SeqCst);
                let reply = match &op {
                    Op::Create(i, o, p) => reg.create(p, i, o).map_or(Reply::Refused, Reply::Id),
                    Op::Delete(i, o) => reg.delete(i, o).map_or(Reply::Refused, |_| Reply::Done(1)),
                    Op::DeleteAll(i) => reg.delete_by_input_key(i).map_or(Reply::Refused, |s| Reply::Done(first_number(&s).unwrap_or(u64::MAX))),
                    Op::Send(i, t, v) => reg.receive(i, *t, vec![*v]).map_or(Reply::Refused, |m| Reply::Answer(answer(m))),
                };
                let to = clock.fetch_add(1, Ordering::SeqCst);
                h.push(Event { op, reply, from, to, thread: th });
            }
            h
        }));
    }
    let mut h = vec![];
    for t in running {
        match t.join() {
            Ok(x) => h.extend(x),
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    ffi::PAUSE.store(0, Ordering::Relaxed);
    let (live, wrong) = ffi::with(|e| (e.programs.keys().cloned().collect::<BTreeSet<_>>(), e.wrong.clone()));
    if let Some(w) = wrong.first() {
        return fail("engine misused", w.clone());
    }
    h.sort_by_key(|e| e.from);
    let overlaps = h.windows(2).filter(|w| w[1].from < w[0].to).count();
    let told: Vec<String> = h.iter().map(|e| format!("[{}..{}] thread {} {:?} -> {:?}", e.from, e.to, e.thread, e.op, e.reply)).collect();
    let mut budget = 200000;
    if !explains(&h, 0, &Pipes::new(), &mut HashSet::new(), &live, &mut budget) {
        return fail("no order explains", told.join("; "));
    }
    if budget == 0 {
        c.count("histories_undecided", 1);
    }
    c.count("concurrent_operations", h.len() as u64);
    c.count("overlapping_operations", overlaps as u64);
    if overlaps > 0 {
        c.nontrivial(&h.iter().map(|e| format!("{}{}{:?}", e.from, e.thread, std::mem::discriminant(&e.op))).collect::<String>());
    }
    Ok(())
}

#[derive(Default)]
struct Redis {
    docs: BTreeMap<String, String>,
    series: BTreeMap<String, BTreeMap<u64, f64>>,
    published: BTreeMap<String, Vec<String>>,
    policy: BTreeMap<String, String>,
    broken: Option<(String, usize)>,
    failed: bool,
    depth: usize,
    complaints: Vec<String>,
}
#[derive(Clone, Default)]
struct Model {
    pipes: Pipes,
    series: BTreeMap<String, BTreeMap<u64, f64>>,
    published: BTreeMap<String, Vec<String>>,
}
impl Model {
    fn add(&mut self, key: &str, t: u64, v: f64) {
        self.series.entry(key.to_string()).or_default().insert(t, v);
        let (t, v) = self.series[key].iter().next_back().map(|(t, v)| (*t, *v)).unwrap();
        for (out, a) in model_receive(&mut self.pipes, key, t, v) {
            for (t, v) in a {
                let v = f64::from_bits(v);
                self.add(&out, t, v);
                self.published.entry(format!("{}:ps", out)).or_default().push(format!("{},{}", t, v));
            }
        }
    }
    fn run(&mut self, input: &str, output: &str, persist: bool, id: &str, p: Program) {
        self.pipes.entry(input.to_string()).or_default().insert(output.to_string(), (id.to_string(), p));
        let rows = self.series.get(input).cloned().unwrap_or_default();
        self.series.insert(output.to_string(), BTreeMap::new());
        for (t, v) in rows {
            for (out, a) in model_receive(&mut self.pipes, input, t, v) {
                for (t, v) in a {
                    self.add(&out, t, f64::from_bits(v));
                }
            }
        }
        if !persist {
            self.pipes.get_mut(input).unwrap().remove(output);
        }
    }
}

fn serve(redis: &Rc<RefCell<Redis>>, ctx: &Context, command: &str, args: &[&str]) -> RedisResult {
    let err = |s: &str| Err(RedisError::String(s.to_string()));
    {
        let mut r = redis.borrow_mut();
        r.depth += 1;
        if r.depth > 400 {
            r.complaints.push("the commands call one another without end".into());
            return err("too deep");
        }
        let hit = match &mut r.broken {
            Some((name, n)) if *name == command => {
                *n -= 1;
                *n == 0
            }
            _ => false,
        };
        if hit {
            r.broken = None;
            r.failed = true;
            r.depth -= 1;
            return err("ERR no memory is left");
        }
    }
    let event = |name: &str, key: &str| {
        let _ = commands::rtbot_xrun::on_generic_event(ctx, NotifyEvent, name, key);
    };
    let reply = match (command.to_lowercase().as_str(), args) {
        ("json.get", [key]) => match redis.borrow().docs.get(*key) {
            Some(d) => Ok(RedisValue::SimpleString(d.clone())),
            None => Ok(RedisValue::Null),
        },
        ("ts.range", [key, "-", "+"]) => match redis.borrow().series.get(*key) {
            Some(s) => Ok(RedisValue::Array(s.iter().map(|(t, v)| RedisValue::Array(vec![RedisValue::Integer(*t as i64), RedisValue::SimpleString(v.to_string())])).collect())),
            None => err("ERR TSDB: the key does not exist"),
        },
        ("ts.get", [key]) => match redis.borrow().series.get(*key).map(|s| s.iter().next_back()) {
            Some(Some((t, v))) => Ok(RedisValue::Array(vec![RedisValue::Integer(*t as i64), RedisValue::SimpleString(v.to_string())])),
            Some(None) => Ok(RedisValue::Array(vec![])),
            None => err("ERR TSDB: the key does not exist"),
        },
        ("del", [key]) => {
            let n = redis.borrow_mut().series.remove(*key).is_some();
            event("del", key);
            Ok(RedisValue::Integer(n as i64))
        }
        ("ts.create", [key, more @ ..]) => {
            if redis.borrow().series.contains_key(*key) {
                err("ERR TSDB: key already exists")
            } else {
                redis.borrow_mut().series.insert(key.to_string(), BTreeMap::new());
                redis.borrow_mut().policy.insert(key.to_string(), more.join(" "));
                event("ts.create", key);
                Ok(RedisValue::SimpleStringStatic("OK"))
            }
        }
        ("ts.add", [key, t, v]) => match (t.parse::<u64>(), v.parse::<f64>()) {
            (Ok(t), Ok(v)) => {
                redis.borrow_mut().series.entry(key.to_string()).or_default().insert(t, v);
                event("ts.add", key);
                Ok(RedisValue::Integer(t as i64))
            }
            _ => err("ERR TSDB: invalid timestamp or value"),
        },
        ("publish", [channel, text]) => {
            redis.borrow_mut().published.entry(channel.to_string()).or_default().push(text.to_string());
            Ok(RedisValue::Integer(0))
        }
        ("rtbot.run", more) => {
            let a = std::iter::once(&command).chain(more.iter()).map(|s| RedisString::create(ctx.ctx, s)).collect();
            commands::rtbot_run::run(ctx, a)
        }
        ("rtbot.xrun", more) => {
            let a = std::iter::once(&command).chain(more.iter()).map(|s| RedisString::create(ctx.ctx, s)).collect();
            commands::rtbot_xrun::run(ctx, a)
        }
        _ => {
            redis.borrow_mut().complaints.push(format!("no such command: {} {:?}", command, args));
            err("ERR unknown command")
        }
    };
    redis.borrow_mut().depth -= 1;
    reply
}

fn document(r: &mut Rng) -> (String, bool) {
    let mut d = serde_json::json!({
        "title": "peaks", "entryNode": "in", "scale": r.below(5), "every": 1 + r.below(3), "lag": r.below(4),
        "operators": [{"id": "in", "type": "Input"}, {"id": "ma", "type": "MovingAverage", "parameters": [{"name": "n", "type": "integer", "value": 3}]}],
        "connections": [{"from": "in", "to": "ma"}]
    });
    if r.chance(0.75) {
        if r.chance(0.3) {
            d["description"] = "any".into();
        }
        return (d.to_string(), true);
    }
    match r.below(10) {
        0 => drop(d.as_object_mut().unwrap().remove("title")),
        1 => drop(d.as_object_mut().unwrap().remove("operators")),
        2 => drop(d.as_object_mut().unwrap().remove("connections")),
        3 => drop(d.as_object_mut().unwrap().remove("entryNode")),
        4 => d["operators"][0] = serde_json::json!({"id": "in"}),
        5 => d["operators"][1]["parameters"][0]["value"] = "three".into(),
        6 => d["connections"][0]["from"] = 3.into(),
        7 => d["refuse"] = "not like this".into(),
        8 => d["operators"] = "in".into(),
        _ => {
            let s = d.to_string();
            return (s[..s.len() - 1 - r.below(40)].to_string(), false);
        }
    }
    (d.to_string(), false)
}

/// a history of commands and samples
fn commands_case(c: &mut Ctx) -> Result<(), Violated> {
    let redis = Rc::new(RefCell::new(Redis::default()));
    let shared = redis.clone();
    let ctx = Context::with(Box::new(move |ctx, command, args| serve(&shared, ctx, command, args)));
    let mut m = Model::default();
    let wide = c.rng.chance(0.03);
    let n = if wide { 30 } else { 5 };
    let names = some_keys(&mut c.rng, n);
    let keys: Vec<&str> = names.iter().map(|k| k.as_str()).collect();
    let mut valid = BTreeMap::new();
    let mut shape = String::new();
    let mut t = vec![10000u64; n];
    let steps = if wide { 120 } else { 12 } + c.rng.below(30);
    let last_fails = c.rng.chance(0.4);
    for step in 0..steps {
        let what = c.rng.below(10);
        let breaking = last_fails && step + 1 == steps;
        if what < 2 && !breaking {
            let (d, ok) = document(&mut c.rng);
            let name = format!("p{}", c.rng.below(4));
            c.note(format!("{} = {}", name, d));
            redis.borrow_mut().docs.insert(name.clone(), d);
            valid.insert(name, ok);
            continue;
        }
        if what < 6 && (!breaking || what < 4) {
            let k = if wide && c.rng.chance(0.5) { 0 } else { c.rng.below(n - 1) };
            t[k] = match c.rng.below(8) {
                0 => t[k],
                1 => t[k] - 7,
                2 => t[k] + (1 << 33),
                _ => t[k] + 1 + c.rng.below(9) as u64,
            };
            let v = c.rng.below(1000) as f64 / 7.0 - 30.0;
            c.note(format!("ts.add {} {} {}", keys[k], t[k], v));
            if breaking {
                let which = ["ts.get", "publish", "ts.add"][c.rng.below(3)];
                redis.borrow_mut().broken = Some((which.to_string(), 1 + (which == "ts.add") as usize));
                c.note(format!("where {} fails", which));
            }
            now(c.about.clone());
            let _ = ctx.call("ts.add", &[keys[k], &t[k].to_string(), &v.to_string()]);
            if redis.borrow().failed {
                c.count("failures_survived", 1);
                let ids: BTreeSet<String> = m.pipes.values().flat_map(|m| m.values().map(|x| x.0.clone())).collect();
                if ffi::with(|e| e.programs.keys().cloned().collect::<BTreeSet<_>>()) != ids {
                    return fail("lost", "after a failure other pipelines are alive than before".into());
                }
                break;
            }
            redis.borrow_mut().broken = None;
            m.add(keys[k], t[k], v);
            shape.push('a');
        } else {
            let i = if wide && c.rng.chance(0.8) { 0 } else { c.rng.below(n - 1) };
            let o = i + 1 + c.rng.below(n - 1 - i);
            let (input, output) = (keys[i], keys[o]);
            if m.pipes.iter().any(|(k, x)| k != input && x.contains_key(output)) {
                continue;
            }
            let name = format!("p{}", c.rng.below(5));
            let cross = c.rng.chance(0.5);
            let persist = ["true", "false", "", "maybe"][if c.rng.chance(0.05) { 3 } else { c.rng.below(3) }];
            let mut args = vec![name.as_str(), input, output];
            if !cross && persist != "" {
                args.push(persist);
            }
            let short = c.rng.chance(0.04);
            if short {
                args.truncate(c.rng.below(3));
            }
            let command = if cross { "rtbot.xrun" } else { "rtbot.run" };
            c.note(format!("{} {:?}", command, args));
            let taken = m.pipes.get(input).map_or(false, |x| x.contains_key(output));
            let good = !short && !taken && valid.get(&name) == Some(&true) && m.series.contains_key(input) && (cross || persist != "maybe");
            let keep = cross || persist == "true";
            let which = ["json.get", "ts.range", "ts.create", "ts.add", "del"][c.rng.below(5)];
            if breaking {
                let nth = if which == "ts.add" { 1 + c.rng.below(3) } else { 1 };
                redis.borrow_mut().broken = Some((which.to_string(), nth));
                c.note(format!("where {} number {} fails", which, nth));
            }
            now(c.about.clone());
            let reply = ctx.call(command, &args);
            redis.borrow_mut().broken = None;
            if redis.borrow().failed {
                if !good {
                    return Ok(());
                }
                let nested = which == "ts.add" && reply.is_ok();
                if nested {
                    // what failed was the sample of another pipeline, of which its own event tells
                    return Ok(());
                }
                if reply.is_ok() {
                    return fail("not refused", format!("the command answers {:?} although {} failed", reply, which));
                }
                let ids: BTreeSet<String> = m.pipes.values().flat_map(|m| m.values().map(|x| x.0.clone())).collect();
                let live = ffi::with(|e| e.programs.keys().cloned().collect::<BTreeSet<_>>());
                if live != ids {
                    return fail("left behind", format!("the command fails in {}; alive are {:?} instead of {:?}", which, live, ids));
                }
                if let Err(e) = ctx.call(command, &args) {
                    return fail("left behind", format!("the command failed in {} and is refused when repeated: {:?}", which, e));
                }
                c.count("failures_survived", 1);
                break;
            }
            if reply.is_ok() != good {
                return fail(
                    if good { "refused" } else { "not refused" },
                    format!("the command answers {:?}; taken {}, program {:?}, input exists {}", reply, taken, valid.get(&name), m.series.contains_key(input)),
                );
            }
            if good {
                let p = Program::make(&redis.borrow().docs[&name]).unwrap_or_else(|_| unreachable!());
                let id = match (&reply, keep) {
                    (Ok(RedisValue::BulkString(s)), true) | (Ok(RedisValue::SimpleString(s)), true) => s.clone(),
                    (Ok(RedisValue::BulkString(s)), false) | (Ok(RedisValue::SimpleString(s)), false) if s == "OK" => String::new(),
                    _ => return fail("reply", format!("the command answers {:?}", reply)),
                };
                m.run(input, output, keep, &id, p);
                let policy = redis.borrow().policy.get(output).cloned().unwrap_or_default();
                if policy.to_uppercase() != "DUPLICATE_POLICY LAST" {
                    return fail("series", format!("the output series is created with {:?}", policy));
                }
                c.count("runs", 1);
                shape.push(if keep { 'x' } else { 'r' });
            } else {
                c.count("refusals", 1);
                shape.push('-');
            }
        }
        if let Some(w) = redis.borrow().complaints.first() {
            return fail("redis misused", w.clone());
        }
        same_programs(&m.pipes, "after the last step")?;
        let r = redis.borrow();
        let bits = |s: &BTreeMap<String, BTreeMap<u64, f64>>| s.iter().map(|(k, v)| (k.clone(), v.iter().map(|(t, v)| (*t, v.to_bits())).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>();
        let (a, b) = (bits(&r.series), bits(&m.series));
        if a != b {
            let k = a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)).unwrap();
            return fail("series", format!("series {} holds {:?} instead of {:?}", k, r.series.get(k), m.series.get(k)));
        }
        if r.published != m.published {
            return fail("published", format!("published is {:?} instead of {:?}", r.published, m.published));
        }
        c.count("states_compared", 1);
        c.count("messages_compared", a.values().map(|v| v.len() as u64).sum());
    }
    c.count("publications", m.published.values().map(|v| v.len() as u64).sum());
    c.nontrivial(&shape);
    if c.samples.len() < 1 && shape.contains('x') {
        let s = c.about.clone();
        c.samples.push(s);
    }
    Ok(())
}

fn run(c: &mut Ctx) -> Result<(), Violated> {
    *PIPELINES_REGISTRY.write().unwrap_or_else(|e| e.into_inner()) = None;
    *ffi::ENGINE.lock().unwrap_or_else(|e| e.into_inner()) = None;
    match c.rng.below(4) {
        0 => registry_case(c),
        1 => concurrent_case(c),
        _ => commands_case(c),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    monitor::main(60000, 3000000, "Non-trivial: the history of a registry; of several threads of which some operations overlap; of the commands and samples.", run);
}
