use crate::rng::Rng;

/// The sequence of decisions which makes up a case (workload + faults). In generation mode values
/// come from the PRNG and are recorded; in replay mode they come from the recorded tape (0 when
/// exhausted), which makes a tape both the replay file and the object of minimisation.
pub struct Tape {
    rng: Option<Rng>,
    pub vals: Vec<u64>,
    pos: usize,
    mirror: Option<(*mut u64, usize, *mut u64)>,
}

impl Tape {
    pub fn generate(seed: u64) -> Tape {
        Tape { rng: Some(Rng::new(seed)), vals: Vec::with_capacity(1 << 16), pos: 0, mirror: None }
    }
    pub fn replay(vals: Vec<u64>) -> Tape {
        Tape { rng: None, vals, pos: 0, mirror: None }
    }
    /// Draws a value in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = if n == 0 { 1 } else { n };
        let v = match self.rng {
            Some(ref mut r) => {
                let v = r.below(n);
                self.vals.push(v);
                if let Some((p, cap, n)) = self.mirror {
                    // keeps a copy which survives the process
                    unsafe {
                        if (*n as usize) < cap {
                            *p.add(*n as usize) = v;
                            *n += 1;
                        }
                    }
                }
                v
            }
            None => {
                if self.pos < self.vals.len() {
                    let v = self.vals[self.pos];
                    if v >= n {
                        v % n
                    } else {
                        v
                    }
                } else {
                    0
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn mirror(&mut self, p: *mut u64, cap: usize, n: *mut u64) {
        self.mirror = Some((p, cap, n));
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.vals.len())
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// true with probability 1/n; false is the simple value
    pub fn one_in(&mut self, n: u64) -> bool {
        let v = self.draw(n);
        v == n - 1 && n > 0
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.draw(items.len() as u64) as usize;
        &items[i]
    }
    /// weighted choice, returns the index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
}
