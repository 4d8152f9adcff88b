//! Vector clocks.
pub const NT: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
#[repr(align(32))]
pub struct VC(pub [u32; NT]);

impl VC {
    pub const ZERO: VC = VC([0; NT]);
    #[inline]
    pub fn join(&mut self, o: &VC) {
        for i in 0..NT {
            if o.0[i] > self.0[i] {
                self.0[i] = o.0[i];
            }
        }
    }
    /// Does the event `epoch` of thread `t` happen before a thread with this clock?
    #[inline]
    pub fn saw(&self, t: u8, epoch: u32) -> bool {
        self.0[t as usize] >= epoch
    }
    pub fn le(&self, o: &VC) -> bool {
        (0..NT).all(|i| self.0[i] <= o.0[i])
    }
}
