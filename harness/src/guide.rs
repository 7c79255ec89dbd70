//! Coverage guidance: the library and the harness are compiled with edge counters (LLVM's
//! SanitizerCoverage, feature `guided`); choice sequences that reach new edges, or known ones more
//! often, are kept and mutated.
use crate::engine::{Draw, Rng};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const MODULES: usize = 4096;
static STARTS: [AtomicUsize; MODULES] = [const { AtomicUsize::new(0) }; MODULES];
static LENGTHS: [AtomicUsize; MODULES] = [const { AtomicUsize::new(0) }; MODULES];
static KNOWN: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = KNOWN.load(Relaxed);
    if n < MODULES && stop as usize > start as usize && (0..n).all(|i| STARTS[i].load(Relaxed) != start as usize) {
        STARTS[n].store(start as usize, Relaxed);
        LENGTHS[n].store(stop as usize - start as usize, Relaxed);
        KNOWN.store(n + 1, Relaxed);
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

pub struct Guide {
    /// which classes of counts were seen, per edge
    seen: Vec<u8>,
    corpus: Vec<Vec<u64>>,
    rng: Rng,
    pub edges: u64,
}
impl Guide {
    pub fn new(seed: u64) -> Option<Self> {
        let n = KNOWN.load(Relaxed);
        let all: usize = (0..n).map(|i| LENGTHS[i].load(Relaxed)).sum();
        (n > 0).then(|| Guide { seen: vec![0; all], corpus: vec![], rng: Rng::new(seed ^ 0x6715), edges: 0 })
    }
    pub fn kept(&self) -> usize {
        self.corpus.len()
    }
    /// the beginning of the choices of the next case
    pub fn next(&mut self) -> Vec<u64> {
        let r = &mut self.rng;
        let n = self.corpus.len() as u64;
        if n == 0 || r.below(5) == 0 {
            return vec![];
        }
        let pick = |r: &mut Rng| if r.below(2) == 0 { n - 1 - r.below(n.min(64)) } else { r.below(n) } as usize;
        let mut c = self.corpus[pick(r)].clone();
        for _ in 0..1 + r.below(4) {
            if c.is_empty() {
                break;
            }
            // the first choices decide on the kind of case
            let at = if r.below(2) == 0 { r.below((c.len() as u64).min(24)) } else { r.below(c.len() as u64) } as usize;
            match r.below(8) {
                0 => c[at] = 0,
                1 => c[at] = c[at].wrapping_add(1),
                2 => c[at] = c[at].saturating_sub(1),
                3 => c[at] = r.below(20),
                4 => c[at] = r.next(),
                5 => {
                    let other = &self.corpus[pick(r)];
                    c.truncate(at);
                    c.extend(other.iter().skip(at));
                }
                6 => {
                    let from = r.below(c.len() as u64) as usize;
                    c[at] = c[from];
                }
                _ => c.truncate(at),
            }
        }
        c
    }
    pub fn forget_run() {
        for i in 0..KNOWN.load(Relaxed) {
            unsafe { std::ptr::write_bytes(STARTS[i].load(Relaxed) as *mut u8, 0, LENGTHS[i].load(Relaxed)) }
        }
    }
    /// what the last case reached
    pub fn learn(&mut self, choices: &[u64]) {
        let (mut base, mut new) = (0, false);
        for i in 0..KNOWN.load(Relaxed) {
            let len = LENGTHS[i].load(Relaxed);
            let c = unsafe { std::slice::from_raw_parts(STARTS[i].load(Relaxed) as *const u8, len) };
            let mut j = 0;
            while j < len {
                if j + 8 <= len && c[j..j + 8] == [0; 8] {
                    j += 8;
                    continue;
                }
                if c[j] > 0 {
                    let class = match c[j] { 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 };
                    let s = &mut self.seen[base + j];
                    if *s == 0 {
                        self.edges += 1;
                    }
                    if *s & class == 0 {
                        *s |= class;
                        new = true;
                    }
                }
                j += 1;
            }
            base += len;
        }
        if new && choices.len() <= 4000 {
            self.corpus.push(choices.to_vec());
        }
    }
}
