//! A configured station: modules, parameters and process image layout,
//! together with the model of the coupler.

use crate::{
    core::{Fail, R},
    fail,
    rng::Rng,
    spec::*,
};
use std::collections::{HashMap, VecDeque};
use ur20::{
    ur20_1com_232_485_422 as com,
    ur20_fbc_mod_tcp::{Coupler, CouplerConfig},
    Address, ChannelValue,
};

#[derive(Clone, Debug)]
pub struct Slot {
    pub kind: Kind,
    pub params: Vec<u16>,
    /// byte offsets within the packed areas
    pub inp: Option<usize>,
    pub out: Option<usize>,
}

impl Slot {
    pub fn in_len(&self) -> usize {
        self.kind.in_bytes(&self.params)
    }
    pub fn out_len(&self) -> usize {
        self.kind.out_bytes(&self.params)
    }
}

#[derive(Clone, Debug)]
pub struct Rig {
    pub slots: Vec<Slot>,
    /// size of the packed areas in bytes
    pub in_size: usize,
    pub out_size: usize,
}

#[derive(Clone)]
pub struct Opts {
    pub kinds: Vec<Kind>,
    pub min: usize,
    pub max: usize,
    /// chance in % of a module without process data
    pub absent: usize,
    /// permit gaps and permuted input areas
    pub in_gaps: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            kinds: KINDS.to_vec(),
            min: 1,
            max: 10,
            absent: 5,
            in_gaps: true,
        }
    }
}

impl Opts {
    pub fn kinds(k: &[Kind]) -> Opts {
        Opts {
            kinds: k.to_vec(),
            ..Opts::default()
        }
    }
    pub fn n(mut self, min: usize, max: usize) -> Opts {
        self.min = min;
        self.max = max;
        self
    }
}

pub fn none_vals(n: usize) -> Vec<Val> {
    (0..n).map(|_| Val::Is(ChannelValue::None)).collect()
}

impl Rig {
    pub fn gen(r: &mut Rng, o: &Opts) -> Rig {
        let n = if o.max > 12 && r.chance(1, 3) {
            r.range(o.max / 2, o.max)
        } else {
            r.range(o.min, o.max.min(o.min.max(12)))
        };
        let mut slots: Vec<(Kind, Vec<u16>)> = vec![];
        // some stations have several modules of a kind in a row
        let rows = r.chance(1, 4);
        // and some have only one kind
        let only = if r.chance(1, 16) { Some(*r.pick(&o.kinds)) } else { None };
        for _ in 0..n {
            let (kind, params) = match slots.last() {
                Some((k, p)) if rows && r.chance(2, 3) => {
                    (*k, if r.chance(2, 3) { p.clone() } else { k.gen_params(r) })
                }
                _ => {
                    let k = only.unwrap_or_else(|| *r.pick(&o.kinds));
                    (k, k.gen_params(r))
                }
            };
            slots.push((kind, params));
        }
        Rig::layout(r, slots, o)
    }

    /// Lay the process data of the modules out.
    pub fn layout(r: &mut Rng, mods: Vec<(Kind, Vec<u16>)>, o: &Opts) -> Rig {
        let mut slots: Vec<Slot> = mods
            .into_iter()
            .map(|(kind, params)| Slot {
                kind,
                params,
                inp: None,
                out: None,
            })
            .collect();
        // serial modules have both process data areas or none
        let absent: Vec<(bool, bool)> = slots
            .iter()
            .map(|s| {
                let (i, o) = (r.chance(o.absent, 100), r.chance(o.absent, 100));
                if s.kind == Com {
                    (i, i)
                } else {
                    (i, o)
                }
            })
            .collect();
        // inputs: disjoint, in any order, possibly with gaps
        let mut order: Vec<usize> = (0..slots.len()).collect();
        if o.in_gaps && r.chance(1, 3) {
            r.shuffle(&mut order);
        }
        let word_aligned = r.chance(1, 3);
        let gaps = o.in_gaps && r.chance(1, 3);
        let mut cur = 0;
        for i in order {
            let n = slots[i].in_len();
            if n == 0 || absent[i].0 {
                continue;
            }
            if gaps && r.chance(1, 3) {
                cur += r.range(1, 5);
            }
            if word_aligned && n > 1 && cur % 2 == 1 {
                cur += 1;
            }
            slots[i].inp = Some(cur);
            cur += n;
        }
        let in_size = cur;
        // outputs: module order, contiguous up to register alignment
        let out_aligned = r.chance(1, 3);
        let mut cur = 0;
        for (i, s) in slots.iter_mut().enumerate() {
            let n = s.out_len();
            if n == 0 || absent[i].1 {
                continue;
            }
            if cur % 2 == 1 && ((out_aligned && n > 1) || r.chance(1, 8)) {
                cur += 1;
            }
            s.out = Some(cur);
            cur += n;
        }
        Rig {
            slots,
            in_size,
            out_size: cur,
        }
    }

    pub fn config(&self) -> CouplerConfig {
        let mut offsets = vec![];
        for s in &self.slots {
            offsets.push(s.out.map_or(0xFFFF, |o| 0x8000 + o as u16 * 8));
            offsets.push(s.inp.map_or(0xFFFF, |o| o as u16 * 8));
        }
        CouplerConfig {
            modules: self.slots.iter().map(|s| s.kind.ty()).collect(),
            offsets,
            params: self.slots.iter().map(|s| s.params.clone()).collect(),
        }
    }

    pub fn coupler(&self) -> Result<Coupler, Fail> {
        match Coupler::new(&self.config()) {
            Ok(c) => Ok(c),
            Err(e) => fail!("a valid configuration was rejected with {e:?}: {}", self.show()),
        }
    }

    pub fn show(&self) -> String {
        let mut v = vec![];
        for s in &self.slots {
            v.push(format!(
                "{:?}{:?}@in{}out{}",
                s.kind,
                s.params,
                s.inp.map_or("-".into(), |o| o.to_string()),
                s.out.map_or("-".into(), |o| o.to_string())
            ));
        }
        v.join(" ")
    }

    /// Random decodable input image (bytes, even length >= in_size).
    pub fn gen_input(&self, r: &mut Rng, lits: &[u64]) -> Vec<u8> {
        let mut b = r.bytes(self.in_size + self.in_size % 2);
        for s in &self.slots {
            if let Some(o) = s.inp {
                let d = gen_in(s.kind, &s.params, r, lits);
                b[o..o + d.len()].copy_from_slice(&d);
            }
        }
        self.repeat(r, &mut b, true);
        b
    }

    /// Now and then give modules the same process data as their predecessor.
    fn repeat(&self, r: &mut Rng, b: &mut [u8], input: bool) {
        if !r.chance(1, 6) {
            return;
        }
        for w in self.slots.windows(2) {
            let ((Some(from), n), (Some(to), m)) = (if input {
                ((w[0].inp, w[0].in_len()), (w[1].inp, w[1].in_len()))
            } else {
                ((w[0].out, w[0].out_len()), (w[1].out, w[1].out_len()))
            }) else {
                continue;
            };
            let free = input && w[0].kind != Com && w[1].kind != Com;
            let alike = w[0].kind == w[1].kind && w[0].params == w[1].params;
            if n > 0 && n == m && (free || alike) && r.bool() {
                b.copy_within(from..from + n, to);
                if free && r.chance(1, 3) {
                    let at = to + r.below(n);
                    b[at] = r.u8();
                }
            }
        }
    }

    /// Random canonical output image (bytes, even length >= out_size).
    pub fn gen_output(&self, r: &mut Rng, lits: &[u64]) -> Vec<u8> {
        let mut b = vec![0; self.out_size + self.out_size % 2];
        for s in &self.slots {
            if let Some(o) = s.out {
                let d = gen_out(s.kind, &s.params, r, lits);
                b[o..o + d.len()].copy_from_slice(&d);
            }
        }
        self.repeat(r, &mut b, false);
        b
    }

    /// The next input image: a new one, or one which differs little.
    pub fn next_input(&self, r: &mut Rng, lits: &[u64], old: &[u8]) -> Vec<u8> {
        let mut b = old.to_vec();
        let free: Vec<usize> = self
            .slots
            .iter()
            .filter(|s| s.kind != Com)
            .filter_map(|s| s.inp.map(|o| o..o + s.in_len()))
            .flatten()
            .filter(|i| *i < b.len())
            .collect();
        if free.is_empty() || r.chance(2, 3) {
            return self.gen_input(r, lits);
        }
        // part of the data, or all of it, gets zero
        if r.chance(1, 12) {
            let p = *r.pick(&[1, 2, 10]);
            for i in free.chunks(2) {
                if p == 1 || !r.chance(1, p) {
                    for i in i {
                        b[*i] = 0;
                    }
                }
            }
            return b;
        }
        for _ in 0..r.range(1, 3) {
            let (i, mut j) = (*r.pick(&free), *r.pick(&free));
            if j % 2 != i % 2 {
                j = *free.iter().find(|j| **j % 2 == i % 2).unwrap_or(&i);
            }
            let x = if r.bool() { 1 << r.below(8) } else { r.u8() };
            match r.below(5) {
                // sums, differences and checksums of the image stay the same
                0 => b.swap(i, j),
                1 => {
                    b[i] ^= x;
                    b[j] ^= x;
                }
                2 if b[i].checked_add(x).is_some() && b[j] >= x && i != j => {
                    b[i] += x;
                    b[j] -= x;
                }
                // whole words
                3 => {
                    let (i, j) = (i & !1, j & !1);
                    if free.contains(&i) && free.contains(&(i + 1)) && free.contains(&j) && free.contains(&(j + 1)) {
                        b.swap(i, j);
                        b.swap(i + 1, j + 1);
                    }
                }
                _ => b[i] ^= x,
            }
        }
        b
    }

    /// The next canonical output image, as above.
    pub fn next_output(&self, r: &mut Rng, lits: &[u64], old: &[u8]) -> Vec<u8> {
        let mut b = old.to_vec();
        let outs = self.out_slots();
        if outs.is_empty() || b.len() < self.out_size || r.chance(2, 3) {
            return self.gen_output(r, lits);
        }
        for _ in 0..r.range(1, 3) {
            let s = &self.slots[*r.pick(&outs)];
            let t = &self.slots[*r.pick(&outs)];
            let (o, n) = (s.out.unwrap_or(0), s.out_len());
            match (s.kind, r.below(3)) {
                // exchange the data of two alike modules
                (_, 0) if s.kind == t.kind && s.params == t.params => {
                    let q = t.out.unwrap_or(0);
                    for k in 0..n {
                        b.swap(o + k, q + k);
                    }
                }
                (Ao | AoDiag, 1) => {
                    let on: Vec<usize> = (0..4)
                        .filter(|i| s.kind.range_pos(*i).is_some_and(|p| ui_range(s.params[p]).is_some()))
                        .collect();
                    if !on.is_empty() {
                        let (i, j) = (*r.pick(&on), *r.pick(&on));
                        let k = r.below(2);
                        let x = r.u8();
                        if r.bool() {
                            b.swap(o + 2 * i + k, o + 2 * j + k);
                        } else if i != j {
                            b[o + 2 * i + k] ^= x;
                            b[o + 2 * j + k] ^= x;
                        }
                    }
                }
                (Fcnt, 1) => {
                    // the two channels change places
                    for (i, j) in [(0, 4), (1, 5), (2, 6), (3, 7), (8, 10), (9, 11)] {
                        b.swap(o + i, o + j);
                    }
                }
                (Do4 | Do4a | Ro4, 1) => b[o] ^= 1 << r.below(4),
                (Do8 | Do16, 1) => b[o + r.below(n)] ^= 1 << r.below(8),
                (Ao | AoDiag | Fcnt | Do4 | Do4a | Ro4 | Do8 | Do16, _) => {
                    let d = gen_out(s.kind, &s.params, r, lits);
                    b[o..o + d.len()].copy_from_slice(&d);
                }
                _ => {}
            }
        }
        b
    }

    pub fn zero_output(&self) -> Vec<u8> {
        vec![0; self.out_size + self.out_size % 2]
    }

    pub fn com_slots(&self) -> Vec<usize> {
        (0..self.slots.len())
            .filter(|i| self.slots[*i].kind == Com)
            .collect()
    }

    pub fn out_slots(&self) -> Vec<usize> {
        (0..self.slots.len())
            .filter(|i| {
                let s = &self.slots[*i];
                s.kind != Com && s.out.is_some()
            })
            .collect()
    }
}

/// State of the model for one serial module.
#[derive(Clone, Debug, Default)]
pub struct ComModel {
    pub phase: u8,
    pub last_rx: Option<usize>,
    pub tx: VecDeque<Vec<u8>>,
    pub rx: VecDeque<u8>,
    pub last_tx_cnt: usize,
}

impl ComModel {
    pub fn write(&mut self, data: &[u8], udl: usize) {
        for c in data.chunks(udl) {
            self.tx.push_back(c.to_vec());
        }
    }
    pub fn read(&mut self, n: usize) -> Vec<u8> {
        let n = n.min(self.rx.len());
        self.rx.drain(..n).collect()
    }
    pub fn step(&mut self, i: &com::ProcessInput, o: &com::ProcessOutput) -> com::ProcessOutput {
        let mut n = o.clone();
        n.rx_cnt_ack = i.rx_cnt;
        match self.phase {
            0 => {
                n.data.clear();
                n.rx_buf_flush = true;
                n.tx_buf_flush = true;
                n.reset = false;
                self.phase = 1;
            }
            1 => {
                n.data.clear();
                n.rx_buf_flush = false;
                n.tx_buf_flush = false;
                n.reset = true;
                self.phase = 2;
            }
            _ => {
                let next = if i.tx_cnt_ack > 2 { 0 } else { i.tx_cnt_ack + 1 };
                if next != o.tx_cnt {
                    if let Some(d) = self.tx.pop_front() {
                        n.tx_cnt = next;
                        n.data = d;
                    }
                }
                if i.data_available && self.last_rx != Some(i.rx_cnt) {
                    self.rx.extend(&i.data);
                    self.last_rx = Some(i.rx_cnt);
                }
            }
        }
        n
    }
}

/// Model of a coupler.
#[derive(Clone, Debug)]
pub struct Model {
    pub rig: Rig,
    pub com: HashMap<usize, ComModel>,
    pub pending: HashMap<(usize, usize), ChannelValue>,
    pub inputs: Vec<Vec<Val>>,
    pub outputs: Vec<Vec<Val>>,
}

impl Model {
    pub fn new(rig: &Rig) -> Model {
        Model {
            com: rig
                .com_slots()
                .into_iter()
                .map(|i| (i, ComModel::default()))
                .collect(),
            rig: rig.clone(),
            pending: HashMap::new(),
            inputs: vec![],
            outputs: vec![],
        }
    }

    pub fn set(&mut self, m: usize, ch: usize, v: ChannelValue) {
        self.pending.insert((m, ch), v);
    }

    /// One successful cycle: returns the expected new output image (bytes).
    /// All pending requests have to be well typed.
    pub fn step(&mut self, input: &[u8], output: &[u8]) -> Vec<u8> {
        let mut next = vec![0u8; self.rig.out_size + self.rig.out_size % 2];
        let mut ins = vec![];
        let mut outs = vec![];
        for (m, s) in self.rig.slots.iter().enumerate() {
            let ib = s.inp.map(|o| &input[o..o + s.in_len()]);
            let ob = s.out.map(|o| &output[o..o + s.out_len()]);
            if s.kind == Com {
                let (Some(ib), Some(ob), Some(oo)) = (ib, ob, s.out) else {
                    ins.push(none_vals(1));
                    outs.push(none_vals(1));
                    continue;
                };
                let (Some(i), Some(o)) = (com_in(ib), com_out(ob)) else {
                    continue;
                };
                let c = self.com.entry(m).or_default();
                if let Some(ChannelValue::Bytes(d)) = self.pending.remove(&(m, 0)) {
                    c.write(&d, s.out_len() - 2);
                }
                outs.push(vec![Val::Is(
                    if !o.data.is_empty() && o.tx_cnt != c.last_tx_cnt {
                        ChannelValue::Bytes(o.data.clone())
                    } else {
                        ChannelValue::None
                    },
                )]);
                ins.push(vec![Val::Is(if i.data_available && !i.data.is_empty() {
                    ChannelValue::Bytes(i.data.clone())
                } else {
                    ChannelValue::None
                })]);
                c.last_tx_cnt = o.tx_cnt;
                let n = c.step(&i, &o);
                let b = com_out_bytes(&n, s.out_len());
                next[oo..oo + b.len()].copy_from_slice(&b);
            } else {
                ins.push(match ib {
                    Some(b) => decode_in(s.kind, &s.params, b).unwrap_or_default(),
                    None => none_vals(s.kind.channels()),
                });
                outs.push(match ob {
                    Some(b) => decode_out(s.kind, &s.params, b).unwrap_or_default(),
                    None => none_vals(s.kind.channels()),
                });
                if let (Some(o), Some(b)) = (s.out, ob) {
                    let mut b = b.to_vec();
                    for ch in 0..s.kind.channels() {
                        if let Some(v) = self.pending.remove(&(m, ch)) {
                            let _ = apply(s.kind, &s.params, &mut b, ch, &v);
                        }
                    }
                    next[o..o + b.len()].copy_from_slice(&b);
                } else {
                    for ch in 0..s.kind.channels() {
                        self.pending.remove(&(m, ch));
                    }
                }
            }
        }
        self.inputs = ins;
        self.outputs = outs;
        next
    }

    pub fn check_values(&self, c: &Coupler, what: &str) -> R {
        cmp_values(&self.inputs, c.inputs(), &format!("{what}: inputs()"), &self.rig)?;
        cmp_values(&self.outputs, c.outputs(), &format!("{what}: outputs()"), &self.rig)
    }
}

pub fn cmp_values(want: &[Vec<Val>], got: &[Vec<ChannelValue>], what: &str, rig: &Rig) -> R {
    if want.len() != got.len() {
        fail!(
            "{what}: {} modules expected, got {} ({})",
            want.len(),
            got.len(),
            rig.show()
        );
    }
    for (m, (w, g)) in want.iter().zip(got).enumerate() {
        if !matches_all(w, g) {
            fail!(
                "{what} of module {m} ({:?}): expected {w:?}, got {g:?} ({})",
                rig.slots.get(m).map(|s| s.kind),
                rig.show()
            );
        }
    }
    Ok(())
}

pub fn addr(module: usize, channel: usize) -> Address {
    Address { module, channel }
}

/// Compare a returned output image with the expected bytes.
pub fn cmp_image(want: &[u8], got: &[u16], what: &str, rig: &Rig) -> R {
    let g = bytes_of(got);
    if g.len() != want.len() {
        fail!(
            "{what}: expected an image of {} registers, got {} ({})",
            want.len() / 2,
            got.len(),
            rig.show()
        );
    }
    if let Some(i) = (0..g.len()).find(|i| g[*i] != want[*i]) {
        let owner = rig.slots.iter().enumerate().find_map(|(m, s)| {
            let o = s.out?;
            (o..o + s.out_len()).contains(&i).then(|| format!("module {m} {:?}", s.kind))
        });
        fail!(
            "{what}: byte {i} ({}) is {:#04x}, expected {:#04x}; got {g:02x?}, expected {want:02x?} ({})",
            owner.unwrap_or("no module".into()),
            g[i],
            want[i],
            rig.show()
        );
    }
    Ok(())
}

/// Calls `next`, which has to succeed.
pub fn next_ok(c: &mut Coupler, i: &[u8], o: &[u8], what: &str, rig: &Rig) -> Result<Vec<u16>, Fail> {
    match c.next(&words_of(i), &words_of(o)) {
        Ok(x) => Ok(x),
        Err(e) => fail!(
            "{what}: the cycle failed with {e:?}; input {i:02x?}, output {o:02x?} ({})",
            rig.show()
        ),
    }
}

/// Read until the buffer is full or nothing is left. A single call may return
/// less than there is.
pub fn read_full(x: &mut (impl std::io::Read + ?Sized), b: &mut [u8]) -> std::io::Result<usize> {
    let mut done = 0;
    loop {
        let n = x.read(&mut b[done..])?;
        done += n;
        if n == 0 || done >= b.len() {
            return Ok(done);
        }
    }
}

/// Write everything by one of the ways which `Write` offers.
/// Returns the greatest number of `write` calls this may have taken.
pub fn write_any(r: &mut Rng, w: &mut dyn std::io::Write, d: &[u8]) -> std::io::Result<usize> {
    use std::io::{BufWriter, Error, IoSlice, Write};
    let text = std::str::from_utf8(d).ok();
    match r.below(6) {
        0 => w.write_all(d).map(|()| 1),
        1 => {
            // gathered, possibly from empty pieces
            let mut cuts = [r.below(d.len() + 1), r.below(d.len() + 1), r.below(d.len() + 1)];
            cuts.sort_unstable();
            let [a, b, c] = cuts;
            let mut from = 0;
            let mut calls = 0;
            while from < d.len() {
                let p = |x: usize, y: usize| IoSlice::new(&d[x.max(from).min(d.len())..y.max(from)]);
                let n = w.write_vectored(&[p(0, a), p(a, b), p(b, c), p(c, d.len())])?;
                if n == 0 || n > d.len() - from {
                    return Err(Error::other(format!("write_vectored of {} bytes returned {n}", d.len() - from)));
                }
                from += n;
                calls += 4;
            }
            Ok(calls)
        }
        2 => match std::io::copy(&mut &d[..], w)? {
            n if n == d.len() as u64 => Ok(d.len()),
            n => Err(Error::other(format!("copied {n} bytes instead of {}", d.len()))),
        },
        3 => {
            let mut b = BufWriter::with_capacity(r.range(1, 40), w);
            b.write_all(d)?;
            b.flush().map(|()| d.len())
        }
        4 if text.is_some() => {
            let t = text.unwrap_or_default();
            let at = (0..=r.below(t.len() + 1)).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
            write!(w, "{}{}", &t[..at], &t[at..]).map(|()| d.len())
        }
        _ => {
            let mut from = 0;
            while from < d.len() {
                let to = r.range(from + 1, d.len());
                w.write_all(&d[from..to])?;
                from = to;
            }
            w.flush().map(|()| d.len())
        }
    }
}

/// Read `n` bytes, or all if there are less, by one of the ways which `Read`
/// offers; `there` is what should be there.
pub fn read_any(r: &mut Rng, x: &mut dyn std::io::Read, n: usize, there: &[u8]) -> std::io::Result<Vec<u8>> {
    use std::io::{ErrorKind, IoSliceMut, Read};
    let mut b = vec![];
    match r.below(8) {
        0 => {
            x.take(n as u64).read_to_end(&mut b)?;
        }
        1 if n < 300 => {
            for c in x.bytes().take(n) {
                b.push(c?);
            }
        }
        2 => {
            while b.len() < n {
                let left = n - b.len();
                let mut s = vec![0; left];
                let at = r.below(left + 1);
                let (p, q) = s.split_at_mut(at);
                let at = r.below(q.len() + 1);
                let (q, t) = q.split_at_mut(at);
                let k = x.read_vectored(&mut [IoSliceMut::new(p), IoSliceMut::new(q), IoSliceMut::new(t)])?;
                if k == 0 {
                    break;
                }
                s.truncate(k);
                b.extend(s);
            }
        }
        3 if n <= there.len() => {
            b.resize(n, 0);
            x.read_exact(&mut b)?;
        }
        4 if n < 300 => {
            let mut c = [0];
            while b.len() < n {
                match x.read_exact(&mut c) {
                    Ok(()) => b.push(c[0]),
                    Err(e) if e.kind() == ErrorKind::UnexpectedEof => break,
                    Err(e) => return Err(e),
                }
            }
        }
        5 => {
            std::io::copy(&mut x.take(n as u64), &mut b)?;
        }
        _ if n >= there.len() && r.chance(2, 3) => match std::str::from_utf8(there) {
            Ok(_) if r.bool() => {
                let mut t = String::new();
                x.read_to_string(&mut t)?;
                b = t.into_bytes();
            }
            _ => {
                // what was in the buffer stays there
                b.extend([1, 2, 3]);
                let k = x.read_to_end(&mut b)?;
                if b.len() != k + 3 || b[..3] != [1, 2, 3] {
                    return Err(std::io::Error::other(format!("read_to_end returned {k} but appended {:02x?}", b)));
                }
                b.drain(..3);
            }
        },
        _ => {
            b.resize(n, 0);
            let k = read_full(x, &mut b)?;
            b.truncate(k.min(n));
        }
    }
    Ok(b)
}
