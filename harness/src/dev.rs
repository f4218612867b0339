//! Simulated serial module (device side of the handshake).

use crate::{
    core::Fail,
    fail,
    rng::Rng,
    spec::{com_in_bytes, com_out},
};
use std::collections::VecDeque;
use ur20::ur20_1com_232_485_422 as com;

#[derive(Clone, Debug)]
pub struct Dev {
    pub len: usize,
    max_delay: usize,
    // transmit direction (host -> line)
    seen: com::ProcessOutput,
    ack: usize,
    ack_in: Option<usize>,
    pub line_out: Vec<u8>,
    pub segments_in: u64,
    // receive direction (line -> host)
    pub line_in: VecDeque<Vec<u8>>,
    rx_cnt: usize,
    avail: bool,
    rx_data: Vec<u8>,
    rx_wait: usize,
    /// everything presented to the host after the initialization
    pub presented: Vec<u8>,
    pub segments_out: u64,
    pub flushes: u64,
    pub resets: u64,
    pub up: bool,
    nearly_full: bool,
    ready: bool,
}

impl Dev {
    /// `out`: bytes of the output image which the device holds at start.
    pub fn new(r: &mut Rng, len: usize, max_delay: usize, out: &[u8]) -> Dev {
        let seen = com_out(out).unwrap_or_default();
        let stale = r.chance(1, 2);
        let n = r.range(0, len - 2);
        Dev {
            len,
            max_delay,
            ack: r.below(4),
            seen,
            ack_in: None,
            line_out: vec![],
            segments_in: 0,
            line_in: VecDeque::new(),
            rx_cnt: r.below(4),
            avail: stale,
            rx_data: if stale { r.data(n) } else { vec![] },
            rx_wait: 0,
            presented: vec![],
            segments_out: 0,
            flushes: 0,
            resets: 0,
            up: false,
            nearly_full: r.bool(),
            ready: r.bool(),
        }
    }

    pub fn input(&self) -> Vec<u8> {
        com_in_bytes(
            &com::ProcessInput {
                data_available: self.avail,
                buffer_nearly_full: self.nearly_full,
                rx_cnt: self.rx_cnt,
                tx_cnt_ack: self.ack,
                ready: self.ready,
                data: self.rx_data.clone(),
            },
            self.len,
        )
    }

    /// The host has written its output data.
    pub fn written(&mut self, b: &[u8]) -> Result<(), Fail> {
        let Some(o) = com_out(b) else {
            fail!("the serial output data {b:02x?} is malformed");
        };
        if o.data.len() > self.len - 2 {
            fail!("serial segment of {} bytes in a {} byte frame", o.data.len(), self.len);
        }
        if o.rx_buf_flush {
            self.avail = false;
            self.rx_data.clear();
            self.flushes += 1;
        }
        if o.tx_buf_flush {
            self.ack = o.tx_cnt;
            self.ack_in = None;
            if !o.data.is_empty() {
                fail!("user data {:02x?} transmitted together with a flush request", o.data);
            }
        } else if o.tx_cnt != self.seen.tx_cnt {
            if self.ack_in.is_some() || self.ack != self.seen.tx_cnt {
                fail!(
                    "segment {} handed over before segment {} was acknowledged",
                    o.tx_cnt,
                    self.seen.tx_cnt
                );
            }
            if o.tx_cnt != (self.seen.tx_cnt + 1) % 4 {
                fail!("sequence number jumps from {} to {}", self.seen.tx_cnt, o.tx_cnt);
            }
            if o.data.is_empty() {
                fail!("new sequence number {} without user data", o.tx_cnt);
            }
            self.line_out.extend(&o.data);
            self.segments_in += 1;
            self.ack_in = Some(0);
        } else if o.data != self.seen.data && self.up {
            fail!(
                "the segment {} was changed from {:02x?} to {:02x?} without a new sequence number",
                o.tx_cnt,
                self.seen.data,
                o.data
            );
        }
        if o.reset && !self.seen.reset {
            self.resets += 1;
        }
        if o.reset && self.flushes > 0 {
            self.up = true;
        }
        self.seen = o;
        Ok(())
    }

    /// Time goes by.
    pub fn tick(&mut self, r: &mut Rng) {
        if self.ack_in.is_some() && (self.max_delay == 0 || r.chance(1, self.max_delay + 1)) {
            self.ack_in = None;
            self.ack = self.seen.tx_cnt;
        }
        if r.chance(1, 16) {
            self.nearly_full = !self.nearly_full;
            self.ready = !self.ready;
        }
        if !self.up {
            return;
        }
        if self.rx_wait > 0 {
            self.rx_wait -= 1;
            // the segment which was taken over comes and goes
            if self.segments_out > 0 && !self.rx_data.is_empty() && self.seen.rx_cnt_ack == self.rx_cnt && r.chance(1, 6) {
                self.avail = !self.avail;
            }
            return;
        }
        if self.avail {
            // keep the segment until the host has acknowledged it
            if self.seen.rx_cnt_ack == self.rx_cnt {
                if r.chance(1, 6) {
                    // linger
                    self.rx_wait = r.below(4);
                    return;
                }
                self.avail = false;
                if r.bool() {
                    self.rx_data.clear();
                }
                if r.chance(1, 2) || self.line_in.is_empty() {
                    self.rx_wait = r.below(self.max_delay + 1);
                    return;
                }
            } else {
                return;
            }
        }
        if let Some(d) = self.line_in.pop_front() {
            self.rx_cnt = (self.rx_cnt + 1) % 4;
            self.avail = true;
            self.presented.extend(&d);
            self.rx_data = d;
            self.segments_out += 1;
            self.rx_wait = r.below(self.max_delay + 1);
        }
    }
}
