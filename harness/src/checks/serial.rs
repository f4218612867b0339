//! C01 - C05: serial communication modules.

use crate::{
    core::*,
    dev::Dev,
    ensure, fail,
    rig::*,
    rng::{fnv, Rng},
    spec::*,
};
use std::{
    collections::VecDeque,
    io::Write,
};
use ur20::{
    ur20_1com_232_485_422::{self as com, MessageProcessor, ProcessDataLength},
    ur20_fbc_mod_tcp::Coupler,
    ChannelValue, Error,
};

fn pdl(len: usize) -> ProcessDataLength {
    if len == 16 {
        ProcessDataLength::SixteenBytes
    } else {
        ProcessDataLength::EightBytes
    }
}

fn size(r: &mut Rng, udl: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => udl,
        3 => udl + 1,
        4 => udl - 1,
        5 => udl * r.range(2, 5),
        6 => r.range(1, 300),
        7 => *r.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024]),
        _ => r.range(1, 40),
    }
}

fn writer<'a>(c: &'a mut Coupler, m: usize) -> Result<&'a mut dyn Write, Fail> {
    match c.writer(m) {
        Some(w) => Ok(w),
        None => fail!("serial module {m} has no writer"),
    }
}

fn put(c: &mut Coupler, m: usize, d: &[u8]) -> R {
    let w = writer(c, m)?;
    let mut done = 0;
    loop {
        match w.write(&d[done..]) {
            Ok(n) if n <= d.len() - done && (n > 0 || done == d.len()) => done += n,
            other => fail!("write of {} bytes returned {other:?}", d.len() - done),
        }
        if done == d.len() {
            return Ok(());
        }
    }
}

fn put_all(c: &mut Coupler, m: usize, d: &[u8]) -> R {
    if let Err(e) = writer(c, m)?.write_all(d) {
        fail!("write_all of {} bytes failed: {e}", d.len());
    }
    if let Err(e) = writer(c, m)?.flush() {
        fail!("flush failed: {e}");
    }
    Ok(())
}

/// Read `n` bytes or all there are.
fn take(c: &mut Coupler, m: usize, n: usize) -> Result<Vec<u8>, Fail> {
    let mut b = vec![0xA5; n];
    let Some(r) = c.reader(m) else {
        fail!("serial module {m} has no reader");
    };
    match read_full(r, &mut b) {
        Ok(k) if k <= n => {
            b.truncate(k);
            Ok(b)
        }
        other => fail!("read of {n} bytes returned {other:?}"),
    }
}

/// Read `n` bytes or all there are, in any way.
fn take_any(r: &mut Rng, c: &mut Coupler, m: usize, n: usize, there: &[u8]) -> Result<Vec<u8>, Fail> {
    let Some(x) = c.reader(m) else {
        fail!("serial module {m} has no reader");
    };
    match read_any(r, x, n, there) {
        Ok(b) => Ok(b),
        Err(e) => fail!("module {m}: reading {n} of {} bytes failed: {e}", there.len()),
    }
}

/// A station with serial modules and one device per module.
struct World {
    rig: Rig,
    coupler: Coupler,
    out: Vec<u8>,
    devs: Vec<(usize, Dev)>,
    other: Vec<u8>,
    cycle: u64,
    /// judge the acknowledge of received segments
    acks: bool,
}

impl World {
    fn new(r: &mut Rng, lits: &[u64], n_com: (usize, usize), n_other: usize, delay: usize) -> Result<World, Fail> {
        let mut mods = vec![];
        for _ in 0..r.range(n_com.0, n_com.1) {
            mods.push((Com, Com.gen_params(r)));
        }
        for _ in 0..r.below(n_other + 1) {
            let k = *r.pick(&KINDS[..16]);
            mods.push((k, k.gen_params(r)));
        }
        r.shuffle(&mut mods);
        let o = Opts {
            absent: 0,
            ..Opts::default()
        };
        let rig = Rig::layout(r, mods, &o);
        let coupler = rig.coupler()?;
        let out = rig.gen_output(r, lits);
        let other = rig.gen_input(r, lits);
        let devs = rig
            .com_slots()
            .into_iter()
            .map(|m| {
                let s = &rig.slots[m];
                let o = s.out.unwrap_or(0);
                (m, Dev::new(r, s.out_len(), delay, &out[o..o + s.out_len()]))
            })
            .collect();
        Ok(World {
            rig,
            coupler,
            out,
            devs,
            other,
            cycle: 0,
            acks: false,
        })
    }

    fn cycle(&mut self, r: &mut Rng) -> R {
        let mut inp = self.other.clone();
        for (m, d) in &self.devs {
            let b = d.input();
            let o = self.rig.slots[*m].inp.unwrap_or(0);
            inp[o..o + b.len()].copy_from_slice(&b);
        }
        let what = format!("cycle {}", self.cycle);
        let n = next_ok(&mut self.coupler, &inp, &self.out, &what, &self.rig)?;
        let n = bytes_of(&n);
        ensure!(
            n.len() == self.out.len(),
            "{what}: image of {} bytes instead of {} ({})",
            n.len(),
            self.out.len(),
            self.rig.show()
        );
        for (m, d) in &mut self.devs {
            let s = &self.rig.slots[*m];
            let o = s.out.unwrap_or(0);
            if self.acks {
                let i = s.inp.unwrap_or(0);
                let (seen, acked) = (inp[i] >> 3 & 3, n[o] >> 5 & 3);
                ensure!(
                    seen == acked,
                    "{what}, module {m}: segment {acked} acknowledged instead of {seen} ({})",
                    self.rig.show()
                );
            }
            if let Err(Fail(e)) = d.written(&n[o..o + s.out_len()]) {
                fail!("{what}, module {m}: {e} ({})", self.rig.show());
            }
            d.tick(r);
        }
        self.out = n;
        self.cycle += 1;
        Ok(())
    }
}

/// Data which makes losses, duplicates and reordering visible: a running
/// counter mixed with random bytes.
struct Source {
    n: u32,
    salt: u8,
    mode: usize,
}

impl Source {
    fn make(&mut self, r: &mut Rng, len: usize) -> Vec<u8> {
        if self.mode == 2 {
            return r.data(len);
        }
        (0..len)
            .map(|_| {
                self.n += 1;
                if self.mode == 1 {
                    r.u8()
                } else {
                    (self.n as u8).wrapping_add((self.n >> 8) as u8) ^ self.salt
                }
            })
            .collect()
    }
}

/// A length which occurs in the code, or close to one.
fn lit_size(r: &mut Rng, lits: &[u64], max: usize) -> usize {
    let small: Vec<usize> = lits.iter().map(|l| *l as usize).filter(|l| *l > 1 && *l < max).collect();
    if small.is_empty() {
        return 1;
    }
    *r.pick(&small) + r.below(3) - 1
}

fn transmit(case: &mut Case, n_com: (usize, usize), steps: usize, big: usize) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    // a write in nearly every cycle
    let endless = (steps > 100_000).then_some(3 * (case.idx as usize % 2));
    let delay = if endless.is_some() { 0 } else { *r.pick(&[0, 0, 1, 3, 8]) };
    let mut w = World::new(r, lits, n_com, 4, delay)?;
    let k = w.devs.len();
    let mut accepted: Vec<Vec<u8>> = vec![vec![]; k];
    let mut pending: Vec<Option<Vec<u8>>> = vec![None; k];
    let mut src: Vec<Source> = (0..k)
        .map(|_| Source {
            n: 0,
            salt: r.u8(),
            mode: r.below(3),
        })
        .collect();
    let mut min_segs = vec![0usize; k];
    let mut checked = vec![0usize; k];
    let busy = endless.is_some() || r.chance(1, 2);
    let (rx, reading) = (r.bool(), r.bool());
    let mut writes = 0u64;
    for step in 0..steps {
        for i in 0..k {
            let m = w.devs[i].0;
            let udl = w.devs[i].1.len - 2;
            if !(busy && r.chance(1, 2) || r.chance(1, 12) || step == 0 && r.chance(1, 2)) {
                continue;
            }
            let n = match big {
                0 if endless.is_some() && r.chance(99, 100) => r.range(1, udl),
                0 if r.chance(1, 30) => lit_size(r, lits, 3000),
                0 => size(r, udl),
                _ => big,
            };
            if big > 0 && writes > 0 {
                continue;
            }
            // bounded backlog
            if accepted[i].len() - checked[i] > 6000 {
                continue;
            }
            let d = src[i].make(r, n);
            writes += 1;
            match endless.unwrap_or_else(|| r.below(if big > 0 { 4 } else { 5 })) {
                0 => {
                    put(&mut w.coupler, m, &d)?;
                    accepted[i].extend(&d);
                    min_segs[i] += d.len().div_ceil(udl);
                }
                1 => {
                    put_all(&mut w.coupler, m, &d)?;
                    accepted[i].extend(&d);
                    min_segs[i] += d.len().div_ceil(udl);
                }
                2 => {
                    // several writes in a row
                    for c in d.chunks(n / 3 + 1) {
                        put(&mut w.coupler, m, c)?;
                        accepted[i].extend(c);
                        min_segs[i] += c.len().div_ceil(udl);
                    }
                }
                4 => {
                    let x = writer(&mut w.coupler, m)?;
                    match write_any(r, x, &d) {
                        Ok(calls) => min_segs[i] += d.len().div_ceil(udl) + calls,
                        Err(e) => fail!("module {m}: writing {} bytes failed: {e}", d.len()),
                    }
                    accepted[i].extend(&d);
                }
                _ => {
                    // via the channel; replaces an earlier, still pending request
                    if r.chance(1, 4) {
                        let n = size(r, udl);
                        let d = r.data(n);
                        if let Err(e) = w.coupler.set_output(&addr(m, 0), ChannelValue::Bytes(d)) {
                            fail!("set_output with bytes for serial module {m} failed: {e:?}");
                        }
                        if r.bool() {
                            let d = src[i].make(r, n);
                            put(&mut w.coupler, m, &d)?;
                            min_segs[i] += d.len().div_ceil(udl);
                            accepted[i].extend(d);
                        }
                    }
                    if let Err(e) = w
                        .coupler
                        .set_output(&addr(m, 0), ChannelValue::Bytes(d.clone()))
                    {
                        fail!("set_output with bytes for serial module {m} failed: {e:?}");
                    }
                    pending[i] = Some(d);
                }
            }
        }
        // whatever is received and read meanwhile does not matter
        if rx {
            for (_, d) in &mut w.devs {
                if r.chance(1, 3) {
                    let n = r.range(0, d.len - 2);
                    d.line_in.push_back(r.data(n));
                }
            }
        }
        if reading {
            let m = w.devs[r.below(k)].0;
            let n = *r.pick(&[0, 1, 5, 64, 300]);
            take(&mut w.coupler, m, n)?;
        }
        for i in 0..k {
            if let Some(d) = pending[i].take() {
                min_segs[i] += d.len().div_ceil(w.devs[i].1.len - 2);
                accepted[i].extend(d);
            }
        }
        w.cycle(r)?;
        for i in 0..k {
            let l = &w.devs[i].1.line_out;
            let from = checked[i];
            ensure!(
                accepted[i][from..].starts_with(&l[from..]),
                "module {}: after {} cycles and {from} correct bytes the module got {:02x?} but {:02x?} was written ({})",
                w.devs[i].0,
                w.cycle,
                &l[from..],
                &accepted[i][from..accepted[i].len().min(from + 40)],
                w.rig.show()
            );
            checked[i] = l.len();
        }
    }
    // Everything has to be handed over within a bounded number of cycles.
    let mut left: usize = (0..k)
        .map(|i| min_segs[i] - (w.devs[i].1.segments_in as usize).min(min_segs[i]))
        .max()
        .unwrap_or(0);
    if delay == 0 {
        left += 3;
    } else {
        left = (left + 4) * (delay + 1) * 8 + 200;
    }
    let mut c = 0;
    while (0..k).any(|i| w.devs[i].1.line_out.len() < accepted[i].len()) {
        ensure!(
            c < left,
            "data got stuck: {:?} of {:?} bytes handed over after {c} further cycles (acknowledge delay {delay}) ({})",
            w.devs.iter().map(|d| d.1.line_out.len()).collect::<Vec<_>>(),
            accepted.iter().map(Vec::len).collect::<Vec<_>>(),
            w.rig.show()
        );
        w.cycle(r)?;
        c += 1;
    }
    // nothing else follows
    for _ in 0..r.range(3, 10) {
        w.cycle(r)?;
    }
    for i in 0..k {
        ensure!(
            w.devs[i].1.line_out == accepted[i],
            "module {}: got {} bytes, but {} bytes were written ({})",
            w.devs[i].0,
            w.devs[i].1.line_out.len(),
            accepted[i].len(),
            w.rig.show()
        );
    }
    let o = &mut *case.obs;
    o.eval(w.cycle);
    o.count("cycles", w.cycle);
    o.count("write requests", writes);
    let segs: u64 = w.devs.iter().map(|d| d.1.segments_in).sum();
    o.count("segments handed over", segs);
    o.count("bytes handed over", accepted.iter().map(|a| a.len() as u64).sum());
    if segs > 0 {
        let all: Vec<u8> = accepted.concat();
        o.case_hash(fnv(&all) ^ segs.wrapping_mul(31) ^ w.cycle);
        o.sample(|| {
            format!(
                "{} serial modules, ack delay <= {delay}: {} cycles, {segs} segments, {} bytes: {}",
                k,
                w.cycle,
                all.len(),
                w.rig.show()
            )
        });
    }
    Ok(())
}

fn receive(case: &mut Case, n_com: (usize, usize), steps: usize, flood: bool) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let delay = if flood { 0 } else { *r.pick(&[0, 0, 1, 3, 8]) };
    let mut w = World::new(r, lits, n_com, 4, delay)?;
    w.acks = true;
    let k = w.devs.len();
    let mut got: Vec<Vec<u8>> = vec![vec![]; k];
    let mut read_rate: Vec<usize> = (0..k).map(|_| *r.pick(&[0, 1, 2, 8])).collect();
    let mut reads = 0u64;
    let mut bidir = 0u64;
    for step in 0..steps {
        for (_, d) in &mut w.devs {
            let udl = d.len - 2;
            if flood || r.chance(1, 4) {
                for _ in 0..r.range(1, 3) {
                    let n = match r.below(5) {
                        0 => udl,
                        1 => 0,
                        2 => 1,
                        _ => r.range(1, udl),
                    };
                    let b = if r.chance(1, 6) && !d.presented.is_empty() {
                        // the same content again must not be dropped
                        let n = n.max(1).min(d.presented.len());
                        d.presented[d.presented.len() - n..].to_vec()
                    } else {
                        r.data(n)
                    };
                    d.line_in.push_back(b);
                }
            }
        }
        if r.chance(1, 8) {
            let i = r.below(k);
            let n = r.range(1, 20);
            let n = if r.chance(1, 60) { size(r, 14) } else { n };
            let b = r.data(n);
            put(&mut w.coupler, w.devs[i].0, &b)?;
            bidir += 1;
        }
        if step == 0 && r.bool() {
            for (m, _) in w.devs.clone() {
                let b = take(&mut w.coupler, m, 40)?;
                ensure!(b.is_empty(), "module {m}: {b:02x?} read before the first cycle ({})", w.rig.show());
            }
        }
        // what the host may know: what was visible before this cycle
        let visible: Vec<usize> = w.devs.iter().map(|d| d.1.presented.len()).collect();
        w.cycle(r)?;
        for i in 0..k {
            if step % 64 == 0 {
                read_rate[i] = *r.pick(&[0, 1, 2, 8]);
            }
            let full = visible[i];
            let left = full - got[i].len();
            if read_rate[i] == 0 || !r.chance(read_rate[i], 8) {
                continue;
            }
            let n = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => left,
                3 => left + r.range(1, 9),
                4 => 4096,
                _ => r.below(left + 2),
            };
            let m = w.devs[i].0;
            let there = &w.devs[i].1.presented[got[i].len()..full];
            let b = if r.bool() {
                take(&mut w.coupler, m, n)?
            } else {
                take_any(r, &mut w.coupler, m, n, there)?
            };
            reads += 1;
            ensure!(
                b.len() == n.min(left),
                "module {m}: a read of {n} bytes returned {} although {left} bytes were received ({})",
                b.len(),
                w.rig.show()
            );
            let p = &w.devs[i].1.presented[got[i].len()..];
            ensure!(
                p.starts_with(&b),
                "module {m}: after {} correct bytes read {b:02x?} but the module delivered {:02x?} ({})",
                got[i].len(),
                &p[..p.len().min(b.len() + 40)],
                w.rig.show()
            );
            got[i].extend(&b);
        }
    }
    for i in 0..k {
        w.devs[i].1.line_in.clear();
    }
    for _ in 0..2 {
        w.cycle(r)?;
    }
    for i in 0..k {
        let m = w.devs[i].0;
        loop {
            let n = r.range(1, 700);
            let b = take(&mut w.coupler, m, n)?;
            if b.is_empty() {
                break;
            }
            got[i].extend(&b);
            ensure!(
                got[i].len() <= w.devs[i].1.presented.len(),
                "module {m}: more data read than received ({})",
                w.rig.show()
            );
        }
        ensure!(
            got[i] == w.devs[i].1.presented,
            "module {m}: read {} bytes but the module delivered {} bytes, or their content differs ({})",
            got[i].len(),
            w.devs[i].1.presented.len(),
            w.rig.show()
        );
    }
    let o = &mut *case.obs;
    o.eval(w.cycle + reads);
    o.count("cycles", w.cycle);
    o.count("reads", reads);
    o.count("concurrent writes", bidir);
    let segs: u64 = w.devs.iter().map(|d| d.1.segments_out).sum();
    o.count("segments received", segs);
    o.count("bytes received", got.iter().map(|a| a.len() as u64).sum());
    if segs > 0 {
        o.case_hash(fnv(&got.concat()) ^ segs);
        o.sample(|| format!("{k} serial modules, delay <= {delay}: {} cycles, {segs} segments received, {reads} reads: {}", w.cycle, w.rig.show()));
    }
    Ok(())
}

/// A large backlog: nothing is read until much has been received.
fn backlog(case: &mut Case, bytes: usize) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let mut w = World::new(r, lits, (1, 2), 1, 0)?;
    w.acks = true;
    let n = w.devs.len();
    let full = r.bool();
    // data which is written at the same time must not matter
    let b = r.data(9);
    put(&mut w.coupler, w.devs[0].0, &b)?;
    while w.devs[0].1.presented.len() < bytes {
        ensure!(
            w.cycle < 50 * bytes as u64 + 1000,
            "only {} of {bytes} bytes could be presented within {} cycles ({})",
            w.devs[0].1.presented.len(),
            w.cycle,
            w.rig.show()
        );
        for (_, d) in &mut w.devs {
            if d.line_in.is_empty() {
                let udl = d.len - 2;
                let k = if full { udl } else { r.range(1, udl) };
                d.line_in.push_back(r.data(k));
            }
        }
        w.cycle(r)?;
    }
    for (_, d) in &mut w.devs {
        d.line_in.clear();
    }
    for _ in 0..2 {
        w.cycle(r)?;
    }
    let chunk = *r.pick(&[usize::MAX, 1 << 17, 65_536, 4096, 1000, 97]);
    let mut reads = 0u64;
    let mut first: Vec<Vec<u8>> = vec![vec![]; n];
    if r.bool() {
        // leave a small rest and go on
        for (i, got) in first.iter_mut().enumerate() {
            let all = w.devs[i].1.presented.len();
            let keep = match r.below(4) {
                0 => 1,
                1 => r.range(1, 99),
                2 => r.range(100, 1000),
                _ => all / 2,
            };
            *got = take(&mut w.coupler, w.devs[i].0, all.saturating_sub(keep))?;
            reads += 1;
        }
        for _ in 0..r.range(1, 20) {
            for (_, d) in &mut w.devs {
                let k = r.range(1, d.len - 2);
                d.line_in.push_back(r.data(k));
            }
            w.cycle(r)?;
        }
        for (_, d) in &mut w.devs {
            d.line_in.clear();
        }
        for _ in 0..2 {
            w.cycle(r)?;
        }
    }
    for (i, first) in first.into_iter().enumerate() {
        let m = w.devs[i].0;
        let mut got = first;
        let mut empty = true;
        loop {
            let left = w.devs[i].1.presented.len() - got.len();
            let k = if reads % 16 == 0 && empty { 0 } else { chunk.min(left + 1) };
            empty = k > 0;
            let b = take(&mut w.coupler, m, k)?;
            reads += 1;
            ensure!(
                b.len() == k.min(left),
                "module {m}: a read of {k} bytes returned {} although {left} bytes were received and not yet read ({})",
                b.len(),
                w.rig.show()
            );
            if left == 0 {
                break;
            }
            got.extend(&b);
            ensure!(
                w.devs[i].1.presented.starts_with(&got),
                "module {m}: wrong data within the first {} of {} bytes read ({})",
                got.len(),
                w.devs[i].1.presented.len(),
                w.rig.show()
            );
            if chunk < 1000 && got.len() > 20_000 {
                // quadratic otherwise
                let b = take(&mut w.coupler, m, 1 << 24)?;
                got.extend(&b);
                ensure!(
                    got == w.devs[i].1.presented,
                    "module {m}: {} bytes read, {} bytes delivered, or their content differs ({})",
                    got.len(),
                    w.devs[i].1.presented.len(),
                    w.rig.show()
                );
            }
        }
    }
    let o = &mut *case.obs;
    o.eval(w.cycle + reads);
    o.count("cycles", w.cycle);
    o.count("reads", reads);
    let total: u64 = w.devs.iter().map(|d| d.1.presented.len() as u64).sum();
    o.count("bytes received without reading", total);
    o.case_hash(fnv(&w.devs[0].1.presented));
    o.sample(|| format!("{n} serial modules, {total} bytes received before the first read: {}", w.rig.show()));
    Ok(())
}

/// The message processor against its model under arbitrary process images.
fn processor(case: &mut Case, steps: usize) -> R {
    let r = &mut case.rng;
    let len = if r.bool() { 8 } else { 16 };
    let udl = len - 2;
    let mut p = MessageProcessor::new(pdl(len));
    let mut m = ComModel::default();
    // hold: how often the images repeat
    let hold = *r.pick(&[1, 2, 5]);
    let echo = r.chance(2, 3);
    let gi = |r: &mut Rng| {
        let n = *r.pick(&[0, 1, udl, udl / 2]);
        com::ProcessInput {
            data_available: r.chance(2, 3),
            buffer_nearly_full: r.bool(),
            rx_cnt: r.below(4),
            tx_cnt_ack: r.below(4),
            ready: r.bool(),
            data: r.data(n),
        }
    };
    let go = |r: &mut Rng| {
        let n = *r.pick(&[0, 1, udl]);
        com::ProcessOutput {
            rx_buf_flush: r.chance(1, 4),
            tx_buf_flush: r.chance(1, 4),
            disable_tx_hw_buffer: r.chance(1, 4),
            tx_cnt: r.below(4),
            rx_cnt_ack: r.below(4),
            reset: r.bool(),
            data: r.data(n),
        }
    };
    let mut i = gi(r);
    let mut o = go(r);
    // sometimes nothing is read for long
    let pile = r.chance(1, 25);
    let steps = if pile { steps + 500 } else { steps };
    let mut h = 0u64;
    let mut sent = 0u64;
    for s in 0..steps {
        if r.chance(1, hold) {
            // everything changes, or only one field
            let j = gi(r);
            match r.below(8) {
                0 => i.data_available = j.data_available,
                1 => i.rx_cnt = j.rx_cnt,
                2 => i.tx_cnt_ack = j.tx_cnt_ack,
                3 => i.data = j.data,
                _ => i = j,
            }
        }
        if r.chance(1, 4) {
            let n = size(r, udl).min(120);
            let d = r.data(n);
            if let Err(e) = p.write_all(&d) {
                fail!("write of {n} bytes failed: {e}");
            }
            m.write(&d, udl);
        }
        if r.chance(1, 12) {
            match p.write(&[]) {
                Ok(0) => {}
                other => fail!("step {s}: an empty write returned {other:?}"),
            }
        }
        let want = m.step(&i, &o);
        let got = p.next(&i, &o);
        ensure!(
            want == got,
            "step {s}: for input {i:?} and output {o:?} expected {want:?} but got {got:?}"
        );
        sent += u64::from(got.tx_cnt != o.tx_cnt);
        if !pile && r.chance(1, 4) {
            let n = r.below(50);
            let all = m.rx.iter().copied().collect::<Vec<_>>();
            let w = m.read(n);
            let mut b = vec![0; n];
            let got = if r.bool() {
                read_full(&mut p, &mut b).map(|k| b[..k.min(n)].to_vec())
            } else {
                read_any(r, &mut p, n, &all)
            };
            match got {
                Ok(b) if b == w => {}
                other => fail!("step {s}: read of {n} bytes returned {other:02x?} instead of {w:02x?}"),
            }
        }
        h = h.rotate_left(5) ^ fnv(&com_out_bytes(&got, len)) ^ fnv(&com_in_bytes(&i, len));
        if echo {
            o = got;
        } else {
            o = go(r);
        }
    }
    let mut b = vec![0; m.rx.len() + 1];
    let w = m.read(usize::MAX);
    match read_full(&mut p, &mut b) {
        Ok(k) if k == w.len() && b[..k] == w[..] => {}
        other => fail!("final read returned {other:?} instead of {} bytes", w.len()),
    }
    case.obs.eval(steps as u64);
    case.obs.count("message processor steps", steps as u64);
    case.obs.count("message processor segments", sent);
    case.obs.case_hash(h);
    Ok(())
}

pub fn c01() -> Check {
    Check {
        rule: "a case is a station with simulated serial modules (random parameters, layout, acknowledge delays, initial images) and a random history of writes; non-trivial: at least one segment was handed over; distinct: by hash of transmitted data and history length",
        assumptions: &["the module acknowledges a segment by copying its sequence number", "every returned output image reaches the module"],
        campaigns: vec![
            Campaign::random("stations", "1-5 serial modules among others, mixed writes, delayed acknowledges", 3000, |c| {
                let n = c.rng.range(3, 150);
                transmit(c, (1, 5), n, 0)
            }),
            Campaign::random("many modules", "up to 60 serial modules", 60, |c| {
                let n = c.rng.range(5, 60);
                transmit(c, (20, 60), n, 0)
            }),
            Campaign::random("long history", "long histories (counter wrap-around)", 10, |c| {
                transmit(c, (1, 2), 6000, 0)
            }),
            Campaign::random("endless history", "more than 2^16 cycles, segments and writes", 4, |c| {
                transmit(c, (1, 1), 160_000, 0)
            }),
            Campaign::random("big write", "single writes of up to 1100000 bytes", 24, |c| {
                if c.idx == 0 {
                    return transmit(c, (1, 1), 3, 1_100_000);
                }
                let n = *c.rng.pick(&[4095, 4096, 4097, 8192, 10_000, 20_000, 65_535, 65_536, 65_537, 70_000, 131_073, 200_000]);
                transmit(c, (1, 2), 3, n)
            }),
            Campaign::random("images", "message processor under arbitrary images against its model", 20_000, |c| {
                let n = c.rng.range(5, 60);
                processor(c, n)
            }),
        ],
    }
}

pub fn c02() -> Check {
    Check {
        rule: "a case is a station with simulated serial modules presenting random segments with random pacing while the host polls and reads with random buffer sizes; non-trivial: at least one segment was presented; distinct: by hash of the received data",
        assumptions: &["the module presents the next segment only after the previous one was acknowledged"],
        campaigns: vec![
            Campaign::random("stations", "1-5 serial modules among others", 4000, |c| {
                let n = c.rng.range(3, 150);
                receive(c, (1, 5), n, false)
            }),
            Campaign::random("many modules", "up to 60 serial modules", 60, |c| {
                let n = c.rng.range(5, 60);
                receive(c, (20, 60), n, false)
            }),
            Campaign::random("flood", "data in every cycle, long histories, large backlog", 16, |c| {
                receive(c, (1, 2), 6000, true)
            }),
            Campaign::random("endless history", "more than 2^16 cycles", 3, |c| {
                receive(c, (1, 1), 80_000, false)
            }),
            Campaign::random("backlog", "up to 300000 bytes (rarely 600000) received before the first read", 24, |c| {
                // takes long, beyond the quick tier only
                if c.idx >= 24 && c.rng.chance(1, 60) {
                    return backlog(c, 600_000);
                }
                let n = *c.rng.pick(&[2000, 5000, 9000, 20_000, 40_000, 70_000, 140_000, 300_000]);
                backlog(c, n)
            }),
            Campaign::random("images", "message processor under arbitrary images against its model", 20_000, |c| {
                let n = c.rng.range(5, 60);
                processor(c, n)
            }),
        ],
    }
}

/// The first cycles of a coupler with serial modules under random images.
fn init_station(case: &mut Case, endless: bool) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let n_com = r.range(1, 6);
    let mut mods: Vec<_> = (0..n_com).map(|_| (Com, Com.gen_params(r))).collect();
    for _ in 0..r.below(5) {
        let k = *r.pick(&KINDS);
        mods.push((k, k.gen_params(r)));
    }
    r.shuffle(&mut mods);
    let o = Opts { absent: 0, ..Opts::default() };
    let rig = Rig::layout(r, mods, &o);
    let mut c = rig.coupler()?;
    let coms = rig.com_slots();
    let mut queued = vec![0usize; coms.len()];
    let mut out = rig.gen_output(r, lits);
    let n = if endless { 66_000 } else { *r.pick(&[3, 6, 30, 300]) };
    let echo = r.chance(3, 4);
    let mut started = vec![false; coms.len()];
    let faulty = r.chance(1, 3);
    let others = rig.out_slots();
    let mut failed = 0u64;
    for cyc in 0..n {
        for (i, m) in coms.iter().enumerate() {
            if r.chance(1, if cyc < 300 { 3 } else { 30 }) {
                let k = match r.below(if cyc < 300 { 40 } else { 20_000 }) {
                    0 => size(r, 14).max(1),
                    1 => lit_size(r, lits, 70_000).max(1),
                    2 => *r.pick(&[1000, 3000, 10_000]),
                    _ => r.range(1, 20),
                };
                let d = r.data(k);
                if r.bool() {
                    put(&mut c, *m, &d)?;
                } else {
                    let _ = c.set_output(&addr(*m, 0), ChannelValue::Bytes(d));
                }
                queued[i] += k;
            }
        }
        let inp = rig.gen_input(r, lits);
        // failed cycles do not count
        if faulty && r.chance(2, 3) {
            for _ in 0..r.range(1, 3) {
                let (mut bi, mut bo) = (inp.clone(), out.clone());
                match r.below(4) {
                    0 => bi.truncate(2 * r.below(rig.in_size.div_ceil(2))),
                    1 => bo.truncate(2 * r.below(rig.out_size.div_ceil(2))),
                    2 => {
                        let s = &rig.slots[*r.pick(&coms)];
                        if r.bool() {
                            bi[s.inp.unwrap_or(0) + 1] = r.range(15, 255) as u8;
                        } else {
                            bo[s.out.unwrap_or(0) + 1] = r.range(15, 255) as u8;
                        }
                    }
                    _ => {
                        let Some(m) = others.first() else { continue };
                        let v = ChannelValue::Bytes(vec![1, 2, 3]);
                        if c.set_output(&addr(*m, 0), v).is_err() {
                            continue;
                        }
                    }
                }
                let g = c.next(&words_of(&bi), &words_of(&bo));
                ensure!(g.is_err(), "cycle {cyc}: a request or image which does not fit was accepted: {g:x?} ({})", rig.show());
                failed += 1;
            }
        }
        if r.chance(1, 4) && cyc < 2 {
            let m = *r.pick(&coms);
            let b = take(&mut c, m, 64)?;
            ensure!(b.is_empty(), "module {m}: {b:02x?} read before cycle {cyc} ({})", rig.show());
        }
        let got = bytes_of(&next_ok(&mut c, &inp, &out, &format!("cycle {cyc}"), &rig)?);
        for (i, m) in coms.iter().enumerate() {
            let s = &rig.slots[*m];
            let (io, oo) = (s.inp.unwrap_or(0), s.out.unwrap_or(0));
            ensure!(got.len() >= oo + s.out_len(), "image too short: {got:02x?} ({})", rig.show());
            let (Some(was), Some(now), Some(ib)) = (
                com_out(&out[oo..oo + s.out_len()]),
                com_out(&got[oo..oo + s.out_len()]),
                com_in(&inp[io..io + s.in_len()]),
            ) else {
                fail!("cycle {cyc}: malformed serial output data {got:02x?} ({})", rig.show());
            };
            let flags = (now.rx_buf_flush, now.tx_buf_flush, now.reset);
            let want = match cyc {
                0 => (true, true, false),
                1 => (false, false, true),
                _ => (was.rx_buf_flush, was.tx_buf_flush, was.reset),
            };
            ensure!(
                flags == want,
                "cycle {cyc}, module {m}: (rx flush, tx flush, reset) is {flags:?}, expected {want:?}; was {was:?} ({})",
                rig.show()
            );
            ensure!(
                now.disable_tx_hw_buffer == was.disable_tx_hw_buffer,
                "cycle {cyc}, module {m}: the transmit lock was changed ({})",
                rig.show()
            );
            if cyc < 2 {
                ensure!(
                    now.data.is_empty() && now.tx_cnt == was.tx_cnt,
                    "cycle {cyc}, module {m}: user data during the initialization: {now:?}, was {was:?} ({})",
                    rig.show()
                );
                let b = take(&mut c, *m, 64)?;
                ensure!(
                    b.is_empty(),
                    "cycle {cyc}, module {m}: {b:02x?} received during the initialization ({})",
                    rig.show()
                );
            } else {
                if !started[i] && ib.data_available {
                    // the first announced segment is taken over, whatever its number
                    let b = take(&mut c, *m, 64)?;
                    ensure!(
                        b == ib.data,
                        "cycle {cyc}, module {m}: the first segment {:02x?} was received as {b:02x?} ({})",
                        ib.data,
                        rig.show()
                    );
                    started[i] = true;
                }
                if cyc == 2 && queued[i] > 0 && (ib.tx_cnt_ack + 1) % 4 != was.tx_cnt {
                    ensure!(
                        now.tx_cnt == (ib.tx_cnt_ack + 1) % 4 && !now.data.is_empty(),
                        "module {m}: no transmission although the initialization is complete: {now:?} ({})",
                        rig.show()
                    );
                }
            }
        }
        if echo {
            out = got;
        } else {
            out = rig.gen_output(r, lits);
        }
    }
    case.obs.eval(n as u64 * coms.len() as u64);
    case.obs.count("failed cycles", failed);
    case.obs.count("serial modules initialized", coms.len() as u64);
    case.obs.count("cycles", n as u64);
    case.obs.case_hash(fnv(&out) ^ fnv(rig.show().as_bytes()));
    case.obs.sample(|| format!("{n} cycles: {}", rig.show()));
    Ok(())
}

pub fn c03() -> Check {
    Check {
        rule: "a case is either one combination of input and output status bytes for the first three cycles of a serial module (enumerated) or a random station observed over its first cycles; each contains an initialization",
        assumptions: &[],
        campaigns: vec![
            Campaign::all("status bytes", "all 256 x 256 status bytes of the initial images, both frame lengths", 256, |c| {
                let is = c.idx as u8;
                for os in 0..=255u8 {
                    for len in [8usize, 16] {
                        let n = ((is ^ os) as usize) % (len - 1);
                        let d = c.rng.data(n);
                        let mut p = MessageProcessor::new(pdl(len));
                        let mut ib = vec![is, n as u8];
                        ib.extend(&d);
                        let mut ob = vec![os, n as u8];
                        ob.extend(&d);
                        let (Some(i), Some(mut o)) = (com_in(&ib), com_out(&ob)) else {
                            continue;
                        };
                        let queue = os & 1 == is & 1;
                        if queue && p.write_all(&[1, 2, 3]).is_err() {
                            fail!("write failed");
                        }
                        let mut m = ComModel::default();
                        if queue {
                            m.write(&[1, 2, 3], len - 2);
                        }
                        for s in 0..4 {
                            let want = m.step(&i, &o);
                            let got = p.next(&i, &o);
                            ensure!(got == want, "step {s} for input {i:?} and output {o:?}: got {got:?} instead of {want:?}");
                            let mut b = [0; 32];
                            let k = read_full(&mut p, &mut b).unwrap_or(99);
                            let w = m.read(32);
                            ensure!(k == w.len() && b[..k] == w[..], "step {s} for input {i:?}: {k} bytes received instead of {w:02x?}");
                            o = got;
                        }
                        c.obs.eval(4);
                        c.obs.distinct(1);
                    }
                }
                Ok(())
            }),
            Campaign::random("stations", "stations with 1-6 serial modules, first cycles and long runs", 6000, |c| init_station(c, false)),
            Campaign::random("endless", "more than 2^16 cycles", 4, |c| init_station(c, true)),
        ],
    }
}

/// Flow control rules on every single transition.
fn rules(
    i: &com::ProcessInput,
    o: &com::ProcessOutput,
    n: &com::ProcessOutput,
    udl: usize,
) -> R {
    ensure!(
        n.rx_cnt_ack == i.rx_cnt,
        "segment {} acknowledged instead of {}: input {i:?}, output {o:?} -> {n:?}",
        n.rx_cnt_ack,
        i.rx_cnt
    );
    ensure!(n.tx_cnt < 4, "sequence number {} in {n:?}", n.tx_cnt);
    if n.tx_cnt != o.tx_cnt {
        ensure!(
            n.tx_cnt == (i.tx_cnt_ack + 1) % 4,
            "the new sequence number does not follow the acknowledged one: input {i:?}, output {o:?} -> {n:?}"
        );
        ensure!(
            !n.data.is_empty() && n.data.len() <= udl,
            "a new segment has {} bytes (at most {udl}): {n:?}",
            n.data.len()
        );
    } else {
        ensure!(
            n.data == o.data,
            "the outstanding segment was changed: input {i:?}, output {o:?} -> {n:?}"
        );
    }
    ensure!(
        (n.rx_buf_flush, n.tx_buf_flush, n.reset, n.disable_tx_hw_buffer)
            == (o.rx_buf_flush, o.tx_buf_flush, o.reset, o.disable_tx_hw_buffer),
        "control flags changed: output {o:?} -> {n:?}"
    );
    Ok(())
}

/// Every transition of the serial modules of a whole station is judged.
fn flow(c: &mut Case, endless: bool) -> R {
    let (lits, r) = (&c.cx.lits, &mut c.rng);
    let o = Opts { absent: 0, ..Opts::kinds(&[Com, Com, Com, Do4, Di4, Ao, Ui16, Fcnt]).n(1, 8) };
    let rig = Rig::gen(r, &o);
    let coms = rig.com_slots();
    if coms.is_empty() {
        return Ok(());
    }
    let mut k = rig.coupler()?;
    let mut out = rig.gen_output(r, lits);
    let n = if endless { 66_000 } else { r.range(3, 60) };
    let (mut segs, mut h) = (0, 0u64);
    // the lengths of the segments which wait
    let mut queued = vec![VecDeque::new(); coms.len()];
    let write = |q: &mut VecDeque<usize>, n: usize, udl: usize| {
        q.extend(std::iter::repeat_n(udl, n / udl));
        q.extend(Some(n % udl).filter(|n| *n > 0));
    };
    for cyc in 0..n {
        let mut asked = vec![false; coms.len()];
        let mut late = vec![0; coms.len()];
        for (i, m) in coms.iter().enumerate() {
            if r.chance(1, 12) {
                // writing nothing changes nothing
                put(&mut k, *m, &[])?;
            }
            if r.chance(1, if cyc < 300 { 5 } else { 10 }) {
                let n = match r.below(if cyc < 300 { 200 } else { 100_000 }) {
                    0 => *r.pick(&[5000, 20_000, 40_000]),
                    1..5 => lit_size(r, lits, 5000).max(1),
                    5..25 => r.range(1, 400),
                    _ => r.range(1, 40),
                };
                let d = r.data(n);
                if r.chance(1, 4) && !asked[i] {
                    asked[i] = true;
                    late[i] = n;
                    let g = k.set_output(&addr(*m, 0), ChannelValue::Bytes(d));
                    ensure!(g.is_ok(), "byte output for module {m} rejected: {g:?}");
                } else {
                    put(&mut k, *m, &d)?;
                    write(&mut queued[i], n, rig.slots[*m].out_len() - 2);
                }
            }
        }
        let inp = rig.gen_input(r, lits);
        let got = bytes_of(&next_ok(&mut k, &inp, &out, "cycle", &rig)?);
        for (i, m) in coms.iter().enumerate() {
            let s = &rig.slots[*m];
            let (io, oo) = (s.inp.unwrap_or(0), s.out.unwrap_or(0));
            ensure!(got.len() >= oo + s.out_len(), "image too short ({})", rig.show());
            let (Some(was), Some(now), Some(inb)) = (
                com_out(&out[oo..oo + s.out_len()]),
                com_out(&got[oo..oo + s.out_len()]),
                com_in(&inp[io..io + s.in_len()]),
            ) else {
                fail!("malformed serial output data {got:02x?} ({})", rig.show());
            };
            ensure!(now.rx_cnt_ack == inb.rx_cnt, "cycle {cyc}, module {m}: acknowledge {} instead of {} ({})", now.rx_cnt_ack, inb.rx_cnt, rig.show());
            // requested byte outputs are written within the cycle
            write(&mut queued[i], late[i], s.out_len() - 2);
            if cyc >= 2 {
                if let Err(Fail(e)) = rules(&inb, &was, &now, s.out_len() - 2) {
                    fail!("cycle {cyc}, module {m}: {e} ({})", rig.show());
                }
                if now.tx_cnt != was.tx_cnt {
                    segs += 1;
                    let want = queued[i].pop_front();
                    ensure!(
                        want == Some(now.data.len()),
                        "cycle {cyc}, module {m}: a segment of {} bytes transmitted instead of {want:?} ({})",
                        now.data.len(),
                        rig.show()
                    );
                } else {
                    let may = !queued[i].is_empty() && (inb.tx_cnt_ack + 1) % 4 != was.tx_cnt;
                    ensure!(!may, "cycle {cyc}, module {m}: nothing transmitted although {} segments are queued: input {inb:?}, output {was:?} ({})", queued[i].len(), rig.show());
                }
            }
            h = h.rotate_left(7) ^ fnv(&got[oo..oo + 2]);
        }
        out = if r.chance(3, 4) { got } else { rig.gen_output(r, lits) };
    }
    c.obs.eval((n * coms.len()) as u64);
    c.obs.count("transitions judged", (n * coms.len()) as u64);
    c.obs.count("new segments", segs);
    c.obs.case_hash(h);
    c.obs.sample(|| format!("{n} cycles, {segs} segments: {}", rig.show()));
    Ok(())
}

pub fn c04() -> Check {
    Check {
        rule: "a case is one protocol state (sequence numbers of both directions, last accepted segment, data available, queue empty or not, data present), enumerated, or a random station under arbitrary images; every transition is judged",
        assumptions: &[],
        campaigns: vec![
            Campaign::all("states", "all combinations of sequence numbers, flags and queue states after the initialization", 4 * 4 * 4, |c| {
                let idx = c.idx as usize;
                let (ack, tx, rx) = (idx & 3, (idx >> 2) & 3, (idx >> 4) & 3);
                for len in [8usize, 16] {
                    for last in 0..5usize {
                        for bits in 0..128usize {
                            for dl in [0usize, 1, len - 2] {
                                let udl = len - 2;
                                let mut p = MessageProcessor::new(pdl(len));
                                let idle_i = com::ProcessInput::default();
                                let idle_o = com::ProcessOutput::default();
                                p.next(&idle_i, &idle_o);
                                p.next(&idle_i, &idle_o);
                                let mut b = [0u8; 64];
                                if last < 4 {
                                    let i = com::ProcessInput {
                                        data_available: true,
                                        rx_cnt: last,
                                        data: vec![7; 3],
                                        ..Default::default()
                                    };
                                    p.next(&i, &idle_o);
                                    let k = read_full(&mut p, &mut b).unwrap_or(99);
                                    ensure!(k == 3 && b[..3] == [7; 3], "segment {last} not received");
                                }
                                let qlen = if bits & 1 != 0 { 1 + (bits * 7 + dl) % (2 * udl) } else { 0 };
                                let q: Vec<u8> = (0..qlen).map(|x| x as u8 + 1).collect();
                                if dl == 1 && !matches!(p.write(&[]), Ok(0)) {
                                    fail!("an empty write failed");
                                }
                                if p.write_all(&q).is_err() {
                                    fail!("write failed");
                                }
                                let i = com::ProcessInput {
                                    data_available: bits & 2 != 0,
                                    buffer_nearly_full: bits & 4 != 0,
                                    rx_cnt: rx,
                                    tx_cnt_ack: ack,
                                    ready: bits & 8 != 0,
                                    data: (0..dl).map(|x| x as u8 + 0x40).collect(),
                                };
                                let o = com::ProcessOutput {
                                    rx_buf_flush: bits & 16 != 0,
                                    tx_buf_flush: bits & 32 != 0,
                                    disable_tx_hw_buffer: bits & 64 != 0,
                                    tx_cnt: tx,
                                    rx_cnt_ack: (rx + bits) % 4,
                                    reset: bits & 4 != 0,
                                    data: (0..dl).map(|x| x as u8 + 0x80).collect(),
                                };
                                let n = p.next(&i, &o);
                                rules(&i, &o, &n, udl)?;
                                let may = qlen > 0 && (ack + 1) % 4 != tx;
                                ensure!(
                                    may == (n.tx_cnt != o.tx_cnt),
                                    "{} bytes queued, input {i:?}, output {o:?}: {n:?}",
                                    qlen
                                );
                                if may {
                                    ensure!(q.starts_with(&n.data), "transmitted {:02x?} instead of the head of {q:02x?}", n.data);
                                    ensure!(n.data.len() == qlen.min(udl), "transmitted {} of {qlen} queued bytes, frame {udl}", n.data.len());
                                }
                                let k = read_full(&mut p, &mut b).unwrap_or(99);
                                let want: &[u8] = if i.data_available && last != rx { &i.data } else { &[] };
                                ensure!(
                                    k == want.len() && b[..k] == *want,
                                    "last accepted segment {last}, input {i:?}: received {k} bytes instead of {want:02x?}"
                                );
                                c.obs.eval(1);
                                c.obs.distinct(1);
                            }
                        }
                    }
                }
                Ok(())
            }),
            Campaign::random("stations", "arbitrary images and writes on whole stations, every transition judged", 4000, |c| flow(c, false)),
            Campaign::random("endless", "more than 2^16 cycles", 4, |c| flow(c, true)),
        ],
    }
}

pub fn c05() -> Check {
    Check {
        rule: "a case is one frame (status byte, length byte, data) or one message; enumerated completely over status byte x data length x frame length; data bytes are random",
        assumptions: &["frames longer than their data are accepted with trailing bytes ignored"],
        campaigns: vec![
            Campaign::all("capacity", "user data per frame", 2, |c| {
                let len = [8usize, 16][c.idx as usize];
                let n = pdl(len).user_data_len();
                ensure!(n == len - 2, "a frame of {len} bytes has {n} bytes of user data");
                c.obs.eval(1);
                c.obs.distinct(1);
                Ok(())
            }),
            Campaign::all("decode", "all status bytes x length bytes x frame sizes 0..=18 (and a few larger)", 256, |c| {
                let status = c.idx as u8;
                for size in (0..=18usize).chain([64, 255, 256, 257, 258, 300]) {
                    for dl in (0..=20u16).chain([62, 63, 127, 128, 253, 254, 255]) {
                        let mut b = c.rng.bytes(size);
                        if size > 0 {
                            b[0] = status;
                        }
                        if size > 1 {
                            b[1] = dl as u8;
                        }
                        let (wi, wo) = (com_in(&b), com_out(&b));
                        match (wi, com::ProcessInput::try_from_byte_message(&b)) {
                            (Some(w), Ok(g)) => ensure!(w == g, "input frame {b:02x?}: {g:?} instead of {w:?}"),
                            (None, Err(Error::BufferLength)) => {}
                            (w, g) => fail!("input frame {b:02x?}: {g:?} instead of {w:?}"),
                        }
                        match (wo, com::ProcessOutput::try_from_byte_message(&b)) {
                            (Some(w), Ok(g)) => ensure!(w == g, "output frame {b:02x?}: {g:?} instead of {w:?}"),
                            (None, Err(Error::BufferLength)) => {}
                            (w, g) => fail!("output frame {b:02x?}: {g:?} instead of {w:?}"),
                        }
                        c.obs.eval(2);
                        c.obs.distinct(1);
                        if size < 2 {
                            break;
                        }
                    }
                }
                Ok(())
            }),
            Campaign::all("encode", "all flags x sequence numbers 0..=9 x data lengths x frame lengths, with round trip", 16, |c| {
                let f = c.idx as usize;
                for len in [8usize, 16] {
                    for tx in (0..10usize).chain([16, 19, 255, 256, 259, 260, usize::MAX]) {
                        for rx in (0..10usize).chain([16, 19, 255, 256, 259, usize::MAX]) {
                            for dl in (0..=20).chain([254, 255, 256, 257, 258, 262, 300]) {
                                let o = com::ProcessOutput {
                                    rx_buf_flush: f & 1 != 0,
                                    tx_buf_flush: f & 2 != 0,
                                    disable_tx_hw_buffer: f & 4 != 0,
                                    tx_cnt: tx,
                                    rx_cnt_ack: rx,
                                    reset: f & 8 != 0,
                                    data: c.rng.data(dl),
                                };
                                let got = o.try_into_byte_message(&pdl(len));
                                let seq = tx > 3 || rx > 3;
                                let long = dl > len - 2;
                                match got {
                                    Ok(b) => {
                                        ensure!(!seq && !long, "invalid message {o:?} encoded into {b:02x?}");
                                        let w = com_out_bytes(&o, len);
                                        ensure!(b == w, "{o:?} encoded into {b:02x?} instead of {w:02x?}");
                                        let back = com::ProcessOutput::try_from_byte_message(&b);
                                        ensure!(back.as_ref().ok() == Some(&o), "{o:?} decoded as {back:?}");
                                    }
                                    Err(e) => {
                                        ensure!(seq || long, "valid message {o:?} rejected: {e:?}");
                                        if seq != long {
                                            let w = if seq { Error::SequenceNumber } else { Error::DataLength };
                                            ensure!(e == w, "{o:?} rejected with {e:?} instead of {w:?}");
                                        }
                                    }
                                }
                                c.obs.eval(1);
                                c.obs.distinct(1);
                            }
                        }
                    }
                }
                Ok(())
            }),
            Campaign::random("module", "decoding and encoding through the module with both frame lengths", 60_000, |c| {
                let r = &mut c.rng;
                let p = Com.gen_params(r);
                let len = Com.in_bytes(&p);
                let m = match Com.build(&p) {
                    Ok(m) => m,
                    Err(e) => fail!("valid parameters {p:?} rejected: {e:?}"),
                };
                ensure!(m.process_input_byte_count() == len && m.process_output_byte_count() == len, "frame length {} / {} instead of {len} for {p:?}", m.process_input_byte_count(), m.process_output_byte_count());
                let i = gen_in(Com, &p, r, &[]);
                let o = gen_out(Com, &p, r, &[]);
                let gi = m.process_input_data(&words_of(&i));
                let go = m.process_output_data(&words_of(&o));
                let wi = decode_in(Com, &p, &i).unwrap_or_default();
                let wo = decode_out(Com, &p, &o).unwrap_or_default();
                match gi {
                    Ok(g) if matches_all(&wi, &g) => {}
                    g => fail!("input {i:02x?} of {p:?}: {g:?} instead of {wi:?}"),
                }
                match go {
                    Ok(g) if matches_all(&wo, &g) => {
                        let b = m.process_output_values(&g);
                        ensure!(b.as_ref().ok() == Some(&words_of(&o)), "output {o:02x?} of {p:?} re-encoded as {b:02x?}");
                    }
                    g => fail!("output {o:02x?} of {p:?}: {g:?} instead of {wo:?}"),
                }
                c.obs.eval(3);
                c.obs.case_hash(fnv(&i) ^ fnv(&o).rotate_left(1));
                c.obs.sample(|| format!("in {i:02x?} out {o:02x?} params {p:?}"));
                Ok(())
            }),
        ],
    }
}
