//! Choice-sequence engine: generation, replay, shrinking, coverage counting.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851F42D4C957F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}

/// Where choices come from: a PRNG (recording them) or a recorded list (zeros when it is used up).
pub struct Src {
    rng: Rng,
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    log: Option<std::fs::File>,
    /// when the recorded list is used up, go on with the PRNG
    go_on: bool,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Rng::new(seed), rec: vec![], replay: None, pos: 0, log: None, go_on: false }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { rng: Rng::new(0), rec: vec![], replay: Some(c), pos: 0, log: None, go_on: false }
    }
    pub fn mutant(c: Vec<u64>, seed: u64) -> Self {
        Src { rng: Rng::new(seed), replay: Some(c), go_on: true, ..Src::random(0) }
    }
    pub fn log_to(&mut self, f: std::fs::File) {
        self.log = Some(f)
    }
}

/// A source of bounded integers. `G` values are either the choice sequence itself (every number is
/// a choice that shrinks) or a PRNG seeded by a single choice (bulk data).
pub trait Draw {
    /// uniform in 0..n; 0 is the simplest
    fn below(&mut self, n: u64) -> u64;
    fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0 means "no"
        self.below(den) >= den - num
    }
    /// index of the chosen weight; the first alternative is the simplest
    fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    /// in [0, 1)
    fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
}
impl Draw for Src {
    fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) if self.pos < r.len() || !self.go_on => r.get(self.pos).copied().unwrap_or(0) % n,
            _ => ((self.rng.next() as u128 * n as u128) >> 64) as u64,
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = writeln!(f, "{v}");
        }
        v
    }
}
impl Draw for Rng {
    fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// What a case tells about itself.
#[derive(Default)]
pub struct Info {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: String,
}
impl Info {
    pub fn label(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.labels.push(l)
        }
    }
}

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Info) -> Res;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn hook_panics() {
    std::panic::set_hook(Box::new(|i| {
        let mut s = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if s.is_empty() {
            *s = format!("{i}").replace('\n', " ");
        }
    }));
}

pub fn run_case(f: CaseFn, src: &mut Src, info: &mut Info) -> Res {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
    match catch_unwind(AssertUnwindSafe(|| f(src, info))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panicked: {}",
            LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner())
        )),
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(c: &[u64]) -> String {
    format!("[{}]", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

/// Shrink a failing choice list: delete blocks, then zero, halve and decrement entries.
pub fn shrink(f: CaseFn, mut best: Vec<u64>, mut msg: String) -> (Vec<u64>, String) {
    let start = std::time::Instant::now();
    let mut tries = 0;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        if tries > 4000 || start.elapsed().as_secs() > 25 {
            return false;
        }
        tries += 1;
        let mut s = Src::replay(cand);
        let mut i = Info::default();
        if let Err(m) = run_case(f, &mut s, &mut i) {
            let mut r = s.rec;
            while r.last() == Some(&0) {
                r.pop();
            }
            let simpler = (r.len(), r.iter().fold(0u128, |a, &b| a + b as u128))
                < (best.len(), best.iter().fold(0u128, |a, &b| a + b as u128));
            if simpler {
                *best = r;
                *msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut block = (best.len() / 2).max(1);
        while block >= 1 {
            let mut i = 0;
            while i + block <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + block);
                if !attempt(c, &mut best, &mut msg) {
                    i += block;
                }
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for v in [0, best[i] / 2, best[i].saturating_sub(best[i] / 4), best[i].saturating_sub(1)] {
                while i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if !attempt(c, &mut best, &mut msg) {
                        break;
                    }
                    if v != 0 {
                        break;
                    }
                }
            }
        }
        if best == before || start.elapsed().as_secs() > 25 {
            return (best, msg);
        }
    }
}

pub struct Opts {
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    pub cases: u64,
    pub out: String,
    pub cur: String,
}

/// Run `cases` cases; write a JSON report to `out`.
pub fn campaign(f: CaseFn, o: &Opts) -> i32 {
    let start = std::time::Instant::now();
    let cur = std::fs::File::create(&o.cur).expect("cur file");
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut distinct_nontrivial: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut slowest = (0.0, 0u64);
    #[cfg(feature = "guided")]
    let mut guide = crate::guide::Guide::new(o.seed);
    #[cfg(feature = "guided")]
    let given = std::fs::File::create(format!("{}.choices", o.cur)).expect("choices file");
    let mut viol: Option<(u64, Vec<u64>, String, String, Vec<u64>)> = None;
    for i in 0..o.cases {
        let seed = mix(o.seed ^ mix(i.wrapping_mul(0xD1B54A32D192ED03)));
        let _ = cur.write_all_at(format!("{seed:020}").as_bytes(), 0);
        let mut src = Src::random(seed);
        #[cfg(feature = "guided")]
        if let Some(g) = &mut guide {
            let c = g.next();
            let text: String = c.iter().map(|x| format!("{x} ")).collect();
            let _ = given.set_len(0).and_then(|_| given.write_all_at(text.as_bytes(), 0));
            src = Src::mutant(c, seed);
            crate::guide::Guide::forget_run();
        }
        let mut info = Info::default();
        let began = start.elapsed().as_secs_f64();
        let r = run_case(f, &mut src, &mut info);
        let took = start.elapsed().as_secs_f64() - began;
        if took > slowest.0 {
            slowest = (took, seed);
        }
        evals += 1;
        if let Err(m) = r {
            // Report first, shrink afterwards: shrinking may crash.
            write_report(o, evals, &labels, &distinct_nontrivial, &samples, slowest,
                Some((seed, &src.rec, &m, &info.desc, &src.rec)), start.elapsed().as_secs_f64());
            let (c, m2) = shrink(f, src.rec.clone(), m.clone());
            let mut i2 = Info::default();
            let mut s2 = Src::replay(c.clone());
            let _ = run_case(f, &mut s2, &mut i2);
            viol = Some((seed, c, m2, i2.desc, src.rec));
            break;
        }
        #[cfg(feature = "guided")]
        if let Some(g) = &mut guide {
            g.learn(&src.rec);
        }
        let mut h = 0xcbf29ce484222325u64;
        for &c in &src.rec {
            h = mix(h ^ c);
        }
        if seen.insert(h) && info.nontrivial {
            distinct_nontrivial.push(h);
            // a few early samples, then exponentially rarer ones
            let k = distinct_nontrivial.len();
            if samples.len() < 12 && (k <= 2 || k.is_power_of_two()) {
                samples.push(info.desc.clone());
            }
        }
        info.labels.sort();
        info.labels.dedup();
        for l in &info.labels {
            *labels.entry(l).or_default() += 1;
        }
    }
    #[cfg(feature = "guided")]
    if let Some(g) = &guide {
        labels.insert("guided: edges reached", g.edges);
        labels.insert("guided: cases kept for new coverage", g.kept() as u64);
    }
    write_report(o, evals, &labels, &distinct_nontrivial, &samples, slowest,
        viol.as_ref().map(|(s, c, m, d, o)| (*s, c, m, d, o)), start.elapsed().as_secs_f64());
    viol.is_some() as i32
}

#[allow(clippy::too_many_arguments)]
fn write_report(o: &Opts, evals: u64, labels: &BTreeMap<&'static str, u64>, dn: &[u64],
    samples: &[String], slowest: (f64, u64), viol: Option<(u64, &Vec<u64>, &String, &String, &Vec<u64>)>, wall: f64) {
    let mut s = String::new();
    s.push_str(&format!("{{\"prop\":{},\"profile\":{},\"evaluations\":{evals},\"distinct_nontrivial\":{},\"wall\":{wall:.2},\"slowest\":[{:.2},{}],\"labels\":{{",
        js(&o.prop), js(&o.profile), dn.len(), slowest.0, slowest.1));
    s.push_str(&labels.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    s.push(']');
    if let Some((seed, c, m, d, orig)) = viol {
        let d: String = d.chars().take(20000).collect();
        s.push_str(&format!(",\"violation\":{{\"seed\":{seed},\"choices\":{},\"message\":{},\"case\":{},\"original\":{}}}",
            list(c), js(m), js(&d), list(orig)));
    }
    s.push('}');
    // the distinct non-trivial cases, for counting over several processes
    let h: Vec<u8> = dn.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{}.h", o.out), h).expect("hashes");
    let tmp = format!("{}.tmp", o.out);
    std::fs::write(&tmp, s).expect("report");
    std::fs::rename(&tmp, &o.out).expect("report");
}
