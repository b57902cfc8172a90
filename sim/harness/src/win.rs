//! Time windows of timed operations.
pub const S: u64 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Win {
    pub clock: char,
    pub s: i128,
    pub is: bool,
    pub e: i128,
    pub ie: bool,
    pub reset: char,
}

impl Win {
    pub fn unbounded(&self) -> bool {
        self.s < 0 && self.e < 0
    }
    fn ns(b: i128) -> i128 {
        b * S as i128
    }
    pub fn lower_weak(&self, x: u64) -> bool {
        self.s < 0 || if self.is { x as i128 >= Win::ns(self.s) } else { x as i128 > Win::ns(self.s) }
    }
    /// Clock values are whole seconds: an excluded bound is certainly passed one second later.
    pub fn lower_strong(&self, x: u64) -> bool {
        self.s < 0 || if self.is { x as i128 >= Win::ns(self.s) } else { x as i128 >= Win::ns(self.s + 1) }
    }
    pub fn upper(&self, x: u64) -> bool {
        self.e < 0 || if self.ie { x as i128 <= Win::ns(self.e) } else { (x as i128) < Win::ns(self.e) }
    }
    /// Some value in [x0, x1] lies in the window.
    pub fn meets(&self, x0: u64, x1: u64) -> bool {
        self.lower_weak(x1) && self.upper(x0) && (self.s < 0 || self.e < 0 || self.s < self.e || (self.s == self.e && self.is && self.ie))
    }
    /// Every value in [x0, x1] certainly lies in the window.
    pub fn holds(&self, x0: u64, x1: u64) -> bool {
        self.lower_strong(x0) && self.upper(x1)
    }
}
