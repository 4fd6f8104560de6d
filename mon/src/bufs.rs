//! Buffers with hostile segmentation, watched for progress.
use bytes::{Buf, Bytes};
use std::cell::Cell;
use std::io::IoSlice;

/// Calls any buffer answers before it is taken to be polled forever.
const STEP_BUDGET: u64 = 3_000_000;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(STEP_BUDGET) };
}

/// `pieces`: how many segments there are; going over all of them for each is
/// no endless loop.
pub fn steps_reset(pieces: usize) {
    let n = pieces as u64;
    STEPS.with(|s| s.set(0));
    BUDGET.with(|b| b.set(STEP_BUDGET + n * 100 + n * n * 50));
}

pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}

fn step() {
    STEPS.with(|s| {
        s.set(s.get() + 1);
        if s.get() > BUDGET.with(|b| b.get()) {
            s.set(0);
            panic!("STEP BUDGET EXCEEDED: the buffer is polled endlessly");
        }
    });
}

/// Owns its bytes cut into segments; `advance` beyond the end panics.
#[derive(Clone, Debug)]
pub struct SegBuf {
    segs: Vec<Bytes>,
    seg: usize,
    off: usize,
    left: usize,
}

impl SegBuf {
    pub fn new(data: &[u8], cuts: &[usize]) -> SegBuf {
        let mut segs = vec![];
        let mut from = 0;
        let mut cuts: Vec<usize> =
            cuts.iter().copied().filter(|c| *c <= data.len()).collect();
        cuts.sort_unstable();
        cuts.push(data.len());
        for c in cuts {
            if c > from {
                segs.push(Bytes::copy_from_slice(&data[from..c]));
                from = c;
            }
        }
        SegBuf { segs, seg: 0, off: 0, left: data.len() }
    }
    /// Every byte on its own.
    pub fn shredded(data: &[u8]) -> SegBuf {
        let cuts: Vec<usize> = (1..data.len().max(1)).collect();
        SegBuf::new(data, &cuts)
    }
    pub fn rest(&self) -> Vec<u8> {
        let mut v = vec![];
        for (i, s) in self.segs.iter().enumerate().skip(self.seg) {
            v.extend_from_slice(if i == self.seg { &s[self.off..] } else { s });
        }
        v
    }
}

impl Buf for SegBuf {
    fn remaining(&self) -> usize {
        step();
        self.left
    }
    fn chunk(&self) -> &[u8] {
        step();
        match self.segs.get(self.seg) {
            Some(s) => &s[self.off..],
            None => &[],
        }
    }
    fn advance(&mut self, mut n: usize) {
        step();
        assert!(n <= self.left, "advance past the end of the buffer");
        self.left -= n;
        while n > 0 {
            let have = self.segs[self.seg].len() - self.off;
            if n < have {
                self.off += n;
                return;
            }
            n -= have;
            self.seg += 1;
            self.off = 0;
        }
    }
    fn chunks_vectored<'a>(&'a self, dst: &mut [IoSlice<'a>]) -> usize {
        let mut k = 0;
        for (i, s) in self.segs.iter().enumerate().skip(self.seg) {
            if k == dst.len() {
                break;
            }
            dst[k] =
                IoSlice::new(if i == self.seg { &s[self.off..] } else { s });
            k += 1;
        }
        k
    }
}
