//! The report protocol of main.cpp for a workload written in Rust.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Violated(pub String, pub String);

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, n: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0xd1342543de82ef95) ^ n.wrapping_mul(0x2545f4914f6cdd1d) ^ 0x27);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64 / 9007199254740992.0) < p
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub about: String,
    pub counters: BTreeMap<String, u64>,
    pub distinct: BTreeSet<String>,
    pub samples: Vec<String>,
    pub thorough: bool,
}
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self, what: &str) {
        let h = what.bytes().fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
        self.distinct.insert(format!("{:016x}", h));
    }
    pub fn note(&mut self, s: String) {
        self.about.push_str(&s);
        self.about.push_str("; ");
    }
}
fn line(s: &str, limit: usize) -> String {
    s.replace('\n', "\\n").replace(['\t', '\r'], " ").chars().take(limit).collect()
}

pub fn main(quick: u64, thorough: u64, rule: &str, run: fn(&mut Ctx) -> Result<(), Violated>) {
    let mut o: BTreeMap<String, String> = [("seed", "1"), ("shard", "0"), ("shards", "1"), ("case", "-1"), ("from", "0"), ("tier", "quick"), ("scale", "1"), ("report", "/dev/stdout")]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.iter().any(|x| x == "--rule") {
        println!("{}", rule);
        return;
    }
    for p in a.chunks(2) {
        o.insert(p[0][2..].to_string(), p[1].clone());
    }
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&o["report"]).unwrap();
    let mut put = |s: String| f.write_all((s + "\n").as_bytes()).unwrap();
    let deep = o["tier"] == "thorough";
    let num = |k: &str| o[k].parse::<i64>().unwrap();
    let mut cases = ((if deep { thorough } else { quick }) as f64 * o["scale"].parse::<f64>().unwrap()) as i64;
    let (mut shard, mut shards, mut first) = (num("shard"), num("shards"), num("from"));
    if num("case") >= 0 {
        shard = 0;
        shards = 1;
        first = num("case");
        cases = first + 1;
    }
    let (mut ran, mut bad, mut slowest) = (0, 0, (0, 0.0));
    let seed = num("seed") as u64;
    let mut c = Ctx { rng: Rng::new(0, 0), about: String::new(), counters: BTreeMap::new(), distinct: BTreeSet::new(), samples: vec![], thorough: deep };
    for n in (first..cases).filter(|n| n % shards == shard) {
        put(format!("case {}", n));
        let began = Instant::now();
        c.rng = Rng::new(seed, n as u64);
        c.about.clear();
        let (tx, rx) = mpsc::channel();
        let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let r = run(&mut c);
            let _ = tx.send(());
            (c, r)
        });
        let handle = worker.unwrap();
        let over = match rx.recv_timeout(Duration::from_secs(60)) {
            Err(mpsc::RecvTimeoutError::Timeout) => true,
            _ => false,
        };
        if over {
            put(format!("violation hang\t{}\tan operation does not return within 60 s: {}", n, line(&crate::doing(), 3000)));
            put(format!("ran {}", ran));
            put("done".to_string());
            std::process::exit(0);
        }
        match handle.join() {
            Ok((back, r)) => {
                c = back;
                if let Err(Violated(key, detail)) = r {
                    put(format!("violation {}\t{}\t{} || {}", line(&key, 100), n, line(&detail, 3000), line(&c.about, 6000)));
                    bad += 1;
                }
            }
            Err(e) => {
                let what = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                put(format!("violation panic\t{}\t{} while {}", n, line(&what, 1000), line(&crate::doing(), 3000)));
                put("done".to_string());
                std::process::exit(0);
            }
        }
        let took = began.elapsed().as_secs_f64();
        if took > slowest.1 {
            slowest = (n, took);
        }
        ran += 1;
        if bad >= 5 {
            break;
        }
    }
    for (k, v) in &c.counters {
        put(format!("count {} {}", k, v));
    }
    for h in &c.distinct {
        put(format!("distinct {}", h));
    }
    for s in &c.samples {
        put(format!("sample {}", line(s, 1500)));
    }
    put(format!("slowest {} {:.3}", slowest.0, slowest.1));
    put(format!("ran {}", ran));
    put("done".to_string());
}
