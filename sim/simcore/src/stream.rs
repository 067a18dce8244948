use crate::rng::Rng;

/// A stream of bounded choices. In record mode values come from the PRNG; in replay mode from a vector, and 0 (the
/// "nothing special" choice) once the vector is exhausted. Every value actually used is recorded.
#[derive(Clone, Debug)]
pub struct Stream {
    rng: Option<Rng>,
    src: Vec<u32>,
    pub rec: Vec<u32>,
}

impl Stream {
    pub fn record(seed: u64) -> Self {
        Stream { rng: Some(Rng::new(seed)), src: vec![], rec: vec![] }
    }
    pub fn replay(src: Vec<u32>) -> Self {
        Stream { rng: None, src, rec: vec![] }
    }
    pub fn is_replay(&self) -> bool {
        self.rng.is_none()
    }
    /// choose a value in 0..n, uniformly in record mode
    #[inline]
    pub fn choose(&mut self, n: u32) -> u32 {
        self.choose_with(n, |r| r.below(n as u64) as u32)
    }
    /// choose a value in 0..n with a custom record-mode distribution
    #[inline]
    pub fn choose_with(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match self.rng.as_mut() {
            Some(r) => f(r),
            None => {
                let v = self.src.get(self.rec.len()).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            },
        };
        debug_assert!(v < n);
        if self.rec.len() == self.rec.capacity() {
            crate::alloc::quiet();
            self.rec.reserve(4096);
            crate::alloc::unquiet();
        }
        self.rec.push(v);
        v
    }
}
