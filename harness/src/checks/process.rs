//! C06 - C10, C21, C22: the cyclic process data exchange.

use crate::{
    core::*,
    ensure, fail,
    rig::*,
    rng::{fnv, Rng},
    spec::*,
};
use std::collections::HashMap;
use ur20::{
    ur20_fbc_mod_tcp::{
        process_input_data, process_output_data, process_output_values, Coupler, ModuleOffset,
        ProcessModbusTcpData,
    },
    ChannelValue, Error,
};

fn big_opts(r: &mut Rng) -> Opts {
    let max = *r.pick(&[3, 12, 12, 12, 24, 64]);
    Opts::default().n(1, max)
}

/// Now and then more modules than any coupler has.
fn huge_opts(r: &mut Rng) -> Opts {
    if !r.chance(1, 100) {
        return big_opts(r);
    }
    let o = match r.below(3) {
        0 => Opts::default(),
        1 => Opts::kinds(&[Ao, AoDiag, Fcnt, Com]),
        _ => Opts::kinds(&[Ao, Com, Do4, Ro4, Di4]),
    };
    o.n(40, 250)
}

/// Images may be longer than the packed area.
fn pad(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if r.chance(1, 4) {
        let n = 2 * r.range(1, 6);
        let x = r.bytes(n);
        b.extend(x);
    }
    if r.chance(1, 400) {
        // far more than a coupler can have
        let n = *r.pick(&[510, 4094, 8192, 131_070, 131_072, 131_080, 200_000]);
        let x = r.u8();
        b.resize(b.len() / 2 * 2 + n, x);
    }
    b
}

fn hash_rig(rig: &Rig) -> u64 {
    fnv(rig.show().as_bytes())
}

// ---------------------------------------------------------------- C06

fn hold_analog(case: &mut Case) -> R {
    // idx: kind, format, range
    let idx = case.idx as usize;
    let kind = [Ao, AoDiag][idx % 2];
    let format = (idx / 2 % 2) as u16;
    let range = (idx / 4) as u16;
    let mut p = vec![];
    for _ in 0..4 {
        p.extend([format, range, 0]);
        if kind == AoDiag {
            p.push(0);
        }
    }
    let rig = Rig {
        slots: vec![Slot { kind, params: p, inp: None, out: Some(0) }],
        in_size: 0,
        out_size: 8,
    };
    let mut c = rig.coupler()?;
    for w in 0..=0xFFFFu16 {
        let img = [w, w.wrapping_add(0x5555), !w, w.rotate_left(8)];
        match c.next(&[], &img) {
            Ok(o) => ensure!(
                o == img,
                "{kind:?} format {format} range {range}: the untouched output image {img:?} became {o:?}"
            ),
            Err(e) => fail!("{kind:?} format {format} range {range}: image {img:?} failed: {e:?}"),
        }
    }
    case.obs.eval(65536 * 4);
    case.obs.distinct(65536 * 4);
    Ok(())
}

fn hold_station(case: &mut Case, len: usize) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let o = big_opts(r);
    let rig = Rig::gen(r, &o);
    let mut c = rig.coupler()?;
    let mut m = Model::new(&rig);
    let mut out = rig.gen_output(r, lits);
    let mut inp = rig.gen_input(r, lits);
    for cyc in 0..len {
        if r.chance(2, 3) {
            inp = rig.next_input(r, lits, &inp);
        }
        let want = m.step(&inp, &out);
        let (pi, po) = (pad(r, &inp), pad(r, &out));
        let got = next_ok(&mut c, &pi, &po, &format!("cycle {cyc}"), &rig)?;
        cmp_image(&want, &got, &format!("cycle {cyc} without any request"), &rig)?;
        // Now and then the station reports an image which differs little.
        out = if r.chance(1, 5) { rig.next_output(r, lits, &want) } else { want };
    }
    case.obs.eval(len as u64);
    case.obs.count("cycles without requests", len as u64);
    if rig.out_size > 0 {
        case.obs.case_hash(fnv(&out) ^ hash_rig(&rig));
        case.obs.sample(|| format!("{len} cycles: {}", rig.show()));
    }
    Ok(())
}

pub fn c06() -> Check {
    Check {
        rule: "a case is an output image the coupler would write itself; enumerated for analog values (every raw word x format x range) and digital outputs, every preset duration, random for whole stations which run for many cycles without requests; non-trivial: the station has outputs",
        assumptions: &["bits of the image which no channel represents are zero, as the library writes them"],
        campaigns: vec![
            Campaign::all("analog", "every raw word x format x range of the analog output modules", 2 * 2 * 8, hold_analog),
            Campaign::all("digital", "every bit pattern of the digital output modules", 5, |c| {
                let k = [Do4, Do4a, Do8, Do16, Ro4][c.idx as usize];
                let p = vec![0; k.fields().len()];
                let rig = Rig {
                    slots: vec![Slot { kind: k, params: p, inp: None, out: Some(0) }],
                    in_size: 0,
                    out_size: k.out_bytes(&[]),
                };
                let mut cp = rig.coupler()?;
                for w in 0..(1u32 << k.channels()) {
                    let w = w as u16;
                    match cp.next(&[], &[w]) {
                        Ok(o) => ensure!(o == [w], "{k:?}: untouched image {w:#x} became {o:x?}"),
                        Err(e) => fail!("{k:?}: image {w:#x} failed: {e:?}"),
                    }
                    c.obs.eval(1);
                    c.obs.distinct(1);
                }
                Ok(())
            }),
            Campaign::all("durations", "every preset duration x command of the counter module", 128, |c| {
                let m = match Fcnt.build(&[0, 0]) {
                    Ok(m) => m,
                    Err(e) => fail!("parameters rejected: {e:?}"),
                };
                let lo = c.idx as u32 * 65536;
                for us in lo..lo + 65536 {
                    let other = FCNT_MAX_MICROS - us;
                    let cmd = [0u16, 0x100, 0x200][us as usize % 3];
                    let cmd2 = [0u16, 0x100, 0x200][(us / 3) as usize % 3];
                    let img = [
                        (us >> 16) as u16,
                        us as u16,
                        (other >> 16) as u16,
                        other as u16,
                        cmd,
                        cmd2,
                    ];
                    let equal = [img[0], img[1], img[0], img[1], cmd, cmd];
                    for img in [img, equal] {
                        let back = m.process_output_data(&img).and_then(|v| m.process_output_values(&v));
                        ensure!(back.as_ref().is_ok_and(|b| *b == img), "counter output {img:x?} became {back:x?}");
                    }
                }
                c.obs.eval(65536);
                c.obs.distinct(65536);
                Ok(())
            }),
            Campaign::random("stations", "whole stations, changing inputs, fed back outputs", 12_000, |c| {
                let n = c.rng.range(1, 20);
                hold_station(c, n)
            }),
            Campaign::random("long run", "stations without requests for 3000 cycles", 40, |c| hold_station(c, 3000)),
            Campaign::random("endless run", "more than 2^16 cycles", 8, |c| hold_station(c, 66_000)),
        ],
    }
}

// ---------------------------------------------------------------- C07

fn requests(case: &mut Case, len: usize, dense: usize) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let o = big_opts(r);
    let rig = Rig::gen(r, &o);
    let outs = rig.out_slots();
    let mut c = rig.coupler()?;
    let mut m = Model::new(&rig);
    let mut out = rig.gen_output(r, lits);
    let mut inp = rig.gen_input(r, lits);
    let echo = r.chance(2, 3);
    let mut reqs = 0u64;
    let mut repl = 0u64;
    let mut h = hash_rig(&rig);
    let only = outs.get(r.below(outs.len().max(1))).copied();
    let focus = r.chance(1, 4);
    for cyc in 0..len {
        if !outs.is_empty() && r.chance(2, 3) {
            for _ in 0..r.range(1, dense) {
                let s = match only {
                    Some(s) if focus => s,
                    _ => *r.pick(&outs),
                };
                let k = rig.slots[s].kind;
                let ch = r.below(k.channels());
                let v = gen_req(k, &rig.slots[s].params, ch, r, lits);
                if let Err(e) = c.set_output(&addr(s, ch), v.clone()) {
                    fail!("request for module {s} channel {ch} rejected: {e:?} ({})", rig.show());
                }
                if m.pending.contains_key(&(s, ch)) {
                    repl += 1;
                }
                h = h.rotate_left(3) ^ fnv(format!("{s}{ch}{v:?}").as_bytes());
                m.set(s, ch, v);
                reqs += 1;
            }
        }
        if r.chance(1, 3) {
            inp = rig.next_input(r, lits, &inp);
        }
        let want = m.step(&inp, &out);
        let (pi, po) = (pad(r, &inp), pad(r, &out));
        let got = next_ok(&mut c, &pi, &po, &format!("cycle {cyc}"), &rig)?;
        cmp_image(&want, &got, &format!("cycle {cyc}"), &rig)?;
        if echo {
            out = want;
        } else {
            out = rig.next_output(r, lits, &out);
        }
    }
    case.obs.eval(len as u64);
    case.obs.count("cycles", len as u64);
    case.obs.count("requests", reqs);
    case.obs.count("requests replaced before they took effect", repl);
    if reqs > 0 {
        case.obs.case_hash(h);
        case.obs.sample(|| format!("{len} cycles, {reqs} requests: {}", rig.show()));
    }
    Ok(())
}

/// Very many requests before one cycle.
fn storm(case: &mut Case) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let o = match r.below(3) {
        0 => Opts::kinds(&[Do16]),
        1 => Opts::kinds(&[Do4, Do4a, Do8, Do16, Ro4, Ao, AoDiag, Fcnt]),
        _ => Opts::default(),
    };
    let n = *r.pick(&[20, 40, 64, 64, 90]);
    let mut mods = vec![];
    for _ in 0..n {
        let k = *r.pick(&o.kinds);
        mods.push((k, k.gen_params(r)));
    }
    let rig = Rig::layout(r, mods, &Opts { absent: 0, ..o });
    let outs = rig.out_slots();
    let mut c = rig.coupler()?;
    let mut m = Model::new(&rig);
    let mut out = rig.gen_output(r, lits);
    let inp = rig.gen_input(r, lits);
    let mut reqs = 0u64;
    let share = *r.pick(&[1, 2, 10, 100]);
    for cyc in 0..4 {
        let mut all: Vec<(usize, usize)> = outs
            .iter()
            .flat_map(|s| (0..rig.slots[*s].kind.channels()).map(move |ch| (*s, ch)))
            .collect();
        if r.bool() {
            r.shuffle(&mut all);
        }
        if cyc % 2 == 0 {
            for (s, ch) in all {
                for _ in 0..1 + usize::from(r.chance(1, 8)) {
                    if share > 1 && r.chance(1, share) {
                        continue;
                    }
                    let v = gen_req(rig.slots[s].kind, &rig.slots[s].params, ch, r, lits);
                    if let Err(e) = c.set_output(&addr(s, ch), v.clone()) {
                        fail!("request for module {s} channel {ch} rejected: {e:?} ({})", rig.show());
                    }
                    m.set(s, ch, v);
                    reqs += 1;
                }
            }
        }
        let want = m.step(&inp, &out);
        let got = next_ok(&mut c, &inp, &out, &format!("cycle {cyc}"), &rig)?;
        cmp_image(&want, &got, &format!("cycle {cyc}"), &rig)?;
        out = want;
    }
    case.obs.eval(4);
    case.obs.count("requests", reqs);
    case.obs.case_hash(hash_rig(&rig));
    case.obs.sample(|| format!("{} modules, {reqs} requests within two cycles", rig.slots.len()));
    Ok(())
}

pub fn c07() -> Check {
    Check {
        rule: "a case is a station with a random history of output requests and cycles (images fed back or changed by somebody else); every returned image is compared byte by byte with the model; non-trivial: at least one request",
        assumptions: &["requests are well typed for their channel"],
        campaigns: vec![
            Campaign::random("histories", "short histories", 20_000, |c| {
                let n = c.rng.range(1, 12);
                requests(c, n, 6)
            }),
            Campaign::random("bursts", "many requests per cycle", 2000, |c| {
                let n = c.rng.range(1, 6);
                requests(c, n, 200)
            }),
            Campaign::random("storm", "(nearly) all channels of up to 90 modules requested within one cycle", 400, storm),
            Campaign::random("long", "long histories", 40, |c| requests(c, 3000, 4)),
            Campaign::random("endless", "more than 2^16 cycles", 8, |c| requests(c, 66_000, 2)),
            Campaign::all("single", "every output channel of every module type, alone and among others", 12, |c| {
                let k = [Do4, Do4a, Do8, Do16, Ro4, Ao, AoDiag, Fcnt][c.idx as usize % 8];
                for ch in 0..k.channels() {
                    for _ in 0..400 {
                        let r = &mut c.rng;
                        let mut mods = vec![(k, k.gen_params(r))];
                        for _ in 0..r.below(4) {
                            let x = *r.pick(&[Do4, Do8, Do16, Ao, Fcnt, Di4, Com]);
                            mods.push((x, x.gen_params(r)));
                        }
                        let pos = r.below(mods.len());
                        mods.swap(0, pos);
                        let rig = Rig::layout(r, mods, &Opts { absent: 0, ..Opts::default() });
                        let mut cp = rig.coupler()?;
                        let mut m = Model::new(&rig);
                        let mut out = rig.gen_output(r, &c.cx.lits);
                        let inp = rig.gen_input(r, &c.cx.lits);
                        for _ in 0..r.below(3) {
                            let want = m.step(&inp, &out);
                            next_ok(&mut cp, &inp, &out, "warm-up", &rig)?;
                            out = want;
                        }
                        let v = gen_req(k, &rig.slots[pos].params, ch, r, &c.cx.lits);
                        if let Err(e) = cp.set_output(&addr(pos, ch), v.clone()) {
                            fail!("request for channel {ch} of {k:?} rejected: {e:?}");
                        }
                        m.set(pos, ch, v.clone());
                        for cyc in 0..3 {
                            let want = m.step(&inp, &out);
                            let got = next_ok(&mut cp, &inp, &out, "cycle", &rig)?;
                            cmp_image(&want, &got, &format!("cycle {cyc} after requesting {v:?} for channel {ch} of module {pos}"), &rig)?;
                            out = want;
                        }
                        c.obs.eval(3);
                        c.obs.distinct(1);
                    }
                }
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C08

pub fn c08() -> Check {
    Check {
        rule: "a case is a station; every module index up to two beyond the end (and huge ones) x every channel index up to 17 (and huge ones) is tried; distinct by station",
        assumptions: &[],
        campaigns: vec![Campaign::random("addresses", "set_output, reader and writer for valid and invalid addresses", 3000, |c| {
            let (lits, r) = (&c.cx.lits, &mut c.rng);
            let o = big_opts(r);
            let mut rig = Rig::gen(r, &o);
            if c.idx == 0 {
                rig = Rig { slots: vec![], in_size: 0, out_size: 0 };
            }
            if c.idx % 1000 == 1 {
                // module numbers which do not fit a byte
                rig = Rig::gen(r, &Opts::kinds(&[Di4, Do4, Ro4, Com]).n(257, 300));
            }
            let n = rig.slots.len();
            let mut cp = rig.coupler()?;
            let mut m = Model::new(&rig);
            let mut out = rig.gen_output(r, lits);
            let inp = rig.gen_input(r, lits);
            for cyc in 0..r.below(3) {
                let want = m.step(&inp, &out);
                let got = next_ok(&mut cp, &inp, &out, "cycle", &rig)?;
                cmp_image(&want, &got, &format!("cycle {cyc}"), &rig)?;
                out = want;
            }
            let mut evals = 0;
            let huge = [255, 256, 257, 65_535, 65_536, 65_537, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX];
            for module in (0..n + 3).chain(huge) {
                let chs = rig.slots.get(module).map_or(0, |s| s.kind.channels());
                for channel in (0..18).chain(huge) {
                    let valid = module < n && channel < chs;
                    let k = rig.slots.get(module).map(|s| s.kind);
                    let v = match k {
                        // for a serial module a request would be transmitted
                        Some(Com) if valid => ChannelValue::Bytes(vec![]),
                        Some(k) if valid => gen_req(k, &rig.slots[module].params, channel, r, lits),
                        Some(k) => gen_req(if k.has_out() && k != Com { k } else { Do8 }, &vec![0; 64], 0, r, lits),
                        None => ChannelValue::Bit(true),
                    };
                    let v = if valid || r.chance(1, 3) { v } else { super::values::any_value(r, lits) };
                    let res = cp.set_output(&addr(module, channel), v.clone());
                    let want = if valid { Ok(()) } else { Err(Error::Address) };
                    ensure!(
                        res == want,
                        "set_output({v:?}) for module {module} of {n} ({k:?}), channel {channel}: {res:?} instead of {want:?}"
                    );
                    if valid && k != Some(Com) {
                        m.set(module, channel, v);
                    }
                    evals += 1;
                }
                let serial = k_is_com(&rig, module);
                ensure!(
                    cp.writer(module).is_some() == serial && cp.reader(module).is_some() == serial,
                    "module {module} of {n} ({:?}): reader {} writer {}",
                    rig.slots.get(module).map(|s| s.kind),
                    cp.reader(module).is_some(),
                    cp.writer(module).is_some()
                );
            }
            // the rejected requests left nothing behind, the accepted ones count
            for cyc in 0..3 {
                let want = m.step(&inp, &out);
                let got = next_ok(&mut cp, &inp, &out, &format!("cycle {cyc} after the requests"), &rig)?;
                cmp_image(&want, &got, &format!("cycle {cyc} after the requests"), &rig)?;
                out = want;
            }
            c.obs.eval(evals);
            c.obs.case_hash(hash_rig(&rig));
            c.obs.sample(|| rig.show());
            Ok(())
        }),
        Campaign::random("endless", "more than 2^16 requests, valid and invalid ones, and cycles for one coupler", 4, |c| {
            let (lits, r) = (&c.cx.lits, &mut c.rng);
            let o = big_opts(r);
            let mut o = o;
            o.kinds.extend([Com, Do4, Fcnt, Ao]);
            o.max = o.max.min(8);
            let rig = Rig::gen(r, &o);
            let n = rig.slots.len();
            let mut cp = rig.coupler()?;
            let mut m = Model::new(&rig);
            let mut out = rig.gen_output(r, lits);
            let inp = rig.gen_input(r, lits);
            let (mut good, mut bad) = (0u64, 0u64);
            for step in 0..150_000 {
                let module = if r.chance(1, 9) || n == 0 { r.below(n + 2) } else { r.below(n) };
                let k = rig.slots.get(module).map(|s| s.kind);
                let channel = match k {
                    Some(k) if r.chance(4, 5) => r.below(k.channels()),
                    _ => r.below(17),
                };
                let valid = k.is_some_and(|k| channel < k.channels());
                let v = match k {
                    Some(Com) if valid => ChannelValue::Bytes(vec![]),
                    Some(k) if valid => gen_req(k, &rig.slots[module].params, channel, r, lits),
                    _ => ChannelValue::Bit(true),
                };
                let res = cp.set_output(&addr(module, channel), v.clone());
                let want = if valid { Ok(()) } else { Err(Error::Address) };
                ensure!(
                    res == want,
                    "request {step}: set_output({v:?}) for module {module} of {n} ({k:?}), channel {channel}: {res:?} instead of {want:?}"
                );
                if valid && k != Some(Com) {
                    m.set(module, channel, v);
                }
                *(if valid { &mut good } else { &mut bad }) += 1;
                let serial = k_is_com(&rig, module);
                ensure!(
                    cp.writer(module).is_some() == serial && cp.reader(module).is_some() == serial,
                    "request {step}: module {module} of {n} ({k:?}): reader {} writer {}",
                    cp.reader(module).is_some(),
                    cp.writer(module).is_some()
                );
                if r.bool() {
                    let what = format!("after {step} requests");
                    let want = m.step(&inp, &out);
                    let got = next_ok(&mut cp, &inp, &out, &what, &rig)?;
                    cmp_image(&want, &got, &what, &rig)?;
                    out = want;
                }
            }
            c.obs.eval(good + bad);
            c.obs.count("accepted requests", good);
            c.obs.count("rejected requests", bad);
            c.obs.case_hash(hash_rig(&rig) ^ fnv(&out));
            c.obs.sample(|| rig.show());
            Ok(())
        })],
    }
}

fn k_is_com(rig: &Rig, m: usize) -> bool {
    rig.slots.get(m).is_some_and(|s| s.kind == Com)
}

// ---------------------------------------------------------------- C09 / C10

type Mods = Vec<(Box<dyn ProcessModbusTcpData>, ModuleOffset)>;

fn modules(rig: &Rig) -> Result<Mods, Fail> {
    rig.slots
        .iter()
        .map(|s| match s.kind.build(&s.params) {
            Ok(m) => Ok((
                m,
                ModuleOffset {
                    input: s.inp.map(|o| o as u16 * 8),
                    output: s.out.map(|o| 0x8000 + o as u16 * 8),
                },
            )),
            Err(e) => fail!("{:?} rejects {:?}: {e:?}", s.kind, s.params),
        })
        .collect()
}

fn infos(m: &Mods) -> Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> {
    m.iter().map(|(a, b)| (&**a, b)).collect()
}

fn expected(rig: &Rig, img: &[u8], input: bool) -> Vec<Vec<Val>> {
    rig.slots
        .iter()
        .map(|s| {
            let (off, n) = if input { (s.inp, s.in_len()) } else { (s.out, s.out_len()) };
            match off {
                Some(o) => if input {
                    decode_in(s.kind, &s.params, &img[o..o + n])
                } else {
                    decode_out(s.kind, &s.params, &img[o..o + n])
                }
                .unwrap_or_default(),
                None => none_vals(s.kind.channels()),
            }
        })
        .collect()
}

fn matches_vals(want: &[Vec<Val>], got: &[Vec<ChannelValue>]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| matches_all(w, g))
}

pub fn c09() -> Check {
    Check {
        rule: "a case is a station with a random disjoint layout (byte granular, gaps, permuted, high addresses) and random images, or one (module type, bit offset, register, image length) combination; non-trivial: at least one module has process data",
        assumptions: &[],
        campaigns: vec![
            Campaign::random("stations", "random layouts: every module gets exactly its own bytes", 25_000, |c| {
                let (lits, r) = (&c.cx.lits, &mut c.rng);
                let o = huge_opts(r);
                let mut rig = Rig::gen(r, &o);
                // move whole areas to higher addresses
                if r.chance(1, 3) {
                    let max = 8192 - rig.in_size;
                    let d = match r.below(4) {
                        0 => max - r.below(4),
                        1 => r.pick(&[4096usize, 4094, 4090, 2048, 512, 256]) - r.below(3),
                        _ => r.below(max + 1),
                    };
                    for s in &mut rig.slots {
                        s.inp = s.inp.map(|x| x + d);
                    }
                    rig.in_size += d;
                }
                let inp = rig.gen_input(r, lits);
                let out = rig.gen_output(r, lits);
                let ms = modules(&rig)?;
                let inf = infos(&ms);
                let wi = expected(&rig, &inp, true);
                let wo = expected(&rig, &out, false);
                let (pi, po) = (pad(r, &inp), pad(r, &out));
                for (b, input) in [(&pi, true), (&po, false)] {
                    let (w, n) = if input { (&wi, inp.len()) } else { (&wo, out.len()) };
                    let g = if input { process_input_data(&inf, &words_of(b)) } else { process_output_data(&inf, &words_of(b)) };
                    match g {
                        Ok(g) => cmp_values(w, &g, &format!("decoded from an image of {} instead of {n} bytes", b.len()), &rig)?,
                        Err(e) => fail!("image of {} instead of {n} bytes not decodable: {e:?} ({})", b.len(), rig.show()),
                    }
                }
                match process_input_data(&inf, &words_of(&inp)) {
                    Ok(g) => cmp_values(&wi, &g, "decoded input", &rig)?,
                    Err(e) => fail!("input {inp:02x?} not decodable: {e:?} ({})", rig.show()),
                }
                match process_output_data(&inf, &words_of(&out)) {
                    Ok(g) => cmp_values(&wo, &g, "decoded output", &rig)?,
                    Err(e) => fail!("output {out:02x?} not decodable: {e:?} ({})", rig.show()),
                }
                // any image which misses the last register is rejected
                if rig.in_size > 0 {
                    let w = words_of(&inp);
                    let cut = r.below(w.len().min(rig.in_size.div_ceil(2)));
                    let g = process_input_data(&inf, &w[..cut]);
                    ensure!(g == Err(Error::BufferLength) || !uses(&rig, cut, true), "input cut to {cut} registers: {g:?} ({})", rig.show());
                }
                if rig.out_size > 0 {
                    let w = words_of(&out);
                    let cut = r.below(w.len());
                    let g = process_output_data(&inf, &w[..cut]);
                    ensure!(g == Err(Error::BufferLength) || !uses(&rig, cut, false), "output cut to {cut} registers: {g:?} ({})", rig.show());
                }
                // the same through a coupler
                let mut cp = rig.coupler()?;
                if rig.com_slots().is_empty() {
                    next_ok(&mut cp, &inp, &out, "cycle", &rig)?;
                    cmp_values(&wi, cp.inputs(), "inputs()", &rig)?;
                    cmp_values(&wo, cp.outputs(), "outputs()", &rig)?;
                }
                c.obs.eval(4);
                if rig.in_size + rig.out_size > 0 {
                    c.obs.case_hash(fnv(&inp) ^ fnv(&out) ^ hash_rig(&rig));
                    c.obs.sample(|| rig.show());
                }
                Ok(())
            }),
            Campaign::random("history", "inputs() and outputs() after every one of up to 66000 cycles", 60, |c| {
                let (lits, r) = (&c.cx.lits, &mut c.rng);
                let o = Opts::kinds(&KINDS.into_iter().filter(|k| *k != Kind::Com).collect::<Vec<_>>());
                let rig = Rig::gen(r, &o.n(2, 6));
                let mut cp = rig.coupler()?;
                let (mut i, mut o) = (rig.gen_input(r, lits), rig.gen_output(r, lits));
                let imgs: Vec<_> = (0..8)
                    .map(|_| {
                        i = rig.next_input(r, lits, &i);
                        o = rig.next_output(r, lits, &o);
                        let (i, o) = (i.clone(), o.clone());
                        let (wi, wo) = (expected(&rig, &i, true), expected(&rig, &o, false));
                        (i, o, wi, wo)
                    })
                    .collect();
                let n = if c.idx % 30 == 0 { 66_000 } else { 1500 };
                for k in 0..n {
                    let (i, _, wi, _) = &imgs[r.below(8)];
                    let (_, o, _, wo) = &imgs[r.below(8)];
                    next_ok(&mut cp, i, o, "cycle", &rig)?;
                    let what = |s: &str| format!("{s} after cycle {k}");
                    if !matches_vals(wi, cp.inputs()) {
                        cmp_values(wi, cp.inputs(), &what("inputs()"), &rig)?;
                    }
                    if !matches_vals(wo, cp.outputs()) {
                        cmp_values(wo, cp.outputs(), &what("outputs()"), &rig)?;
                    }
                }
                c.obs.eval(2 * n as u64);
                c.obs.case_hash(hash_rig(&rig));
                Ok(())
            }),
            Campaign::all("offsets", "every module type x bit offset x register x image length around the end", 18 * 16, |c| {
                let k = KINDS[c.idx as usize % 18];
                let bit = (c.idx / 18) as u16;
                let r = &mut c.rng;
                for input in [true, false] {
                    for reg in (0..12u16).chain([254, 255, 256, 257, 1023, 1024, 2000, 2046, 2047, 2048, 4000, 4094, 4095]) {
                        if !input && reg > 2047 {
                            continue;
                        }
                        let p = k.gen_params(r);
                        let n = if input { k.in_bytes(&p) } else { k.out_bytes(&p) };
                        if n == 0 {
                            continue;
                        }
                        let m = match k.build(&p) {
                            Ok(m) => m,
                            Err(e) => fail!("{k:?} rejects {p:?}: {e:?}"),
                        };
                        let base = if input { 0 } else { 0x800 };
                        let word = (base + reg) << 4 | bit;
                        let off = ModuleOffset {
                            input: input.then_some(word),
                            output: (!input).then_some(word),
                        };
                        let start = reg as usize * 2 + bit as usize / 8;
                        let need = (start + n).div_ceil(2);
                        for len in [need, need + 1, need + 7, need - 1, reg as usize, 0] {
                            let mut img = r.bytes(len * 2);
                            if len >= need {
                                let d = if input { gen_in(k, &p, r, &[]) } else { gen_out(k, &p, r, &[]) };
                                img[start..start + n].copy_from_slice(&d);
                            }
                            let inf = [(&*m, &off)];
                            let w = words_of(&img);
                            let g = if input { process_input_data(&inf, &w) } else { process_output_data(&inf, &w) };
                            let good_bit = bit == 0 || bit == 8;
                            match g {
                                Ok(g) => {
                                    ensure!(good_bit && len >= need, "{k:?} at register {reg} bit {bit} of an image of {len} registers accepted (input: {input})");
                                    let b = &img[start..start + n];
                                    let want = if input { decode_in(k, &p, b) } else { decode_out(k, &p, b) }.unwrap_or_default();
                                    ensure!(g.len() == 1 && matches_all(&want, &g[0]), "{k:?} {p:?} at register {reg} bit {bit} (input: {input}) of {img:02x?}: {g:?} instead of {want:?}");
                                }
                                Err(e) => {
                                    ensure!(!good_bit || len < need, "{k:?} at register {reg} bit {bit} of an image of {len} registers rejected with {e:?} (input: {input})");
                                    if good_bit != (len >= need) {
                                        let want = if good_bit { Error::BufferLength } else { Error::ModuleOffset };
                                        ensure!(e == want, "{k:?} at register {reg} bit {bit}, {len} registers: {e:?} instead of {want:?}");
                                    }
                                }
                            }
                            c.obs.eval(1);
                            c.obs.distinct(1);
                        }
                    }
                    // outputs below the packed output area
                    if !input && k.has_out() && (bit == 0 || bit == 8) {
                        for word in [0u16, 0x8, 0x10, 0x7FF0, 0x7FF8, 0x4000] {
                            let p = k.gen_params(r);
                            let Ok(m) = k.build(&p) else { fail!("{k:?} rejects {p:?}") };
                            let off = ModuleOffset { input: None, output: Some(word) };
                            let g = process_output_data(&[(&*m, &off)], &[0; 5000]);
                            ensure!(g == Err(Error::ModuleOffset), "{k:?} output at {word:#x} (below the output area): {g:?}");
                            c.obs.eval(1);
                        }
                    }
                }
                Ok(())
            }),
        ],
    }
}

/// Does any module reach beyond `cut` registers?
fn uses(rig: &Rig, cut: usize, input: bool) -> bool {
    rig.slots.iter().any(|s| {
        let (o, n) = if input { (s.inp, s.in_len()) } else { (s.out, s.out_len()) };
        o.is_some_and(|o| o + n > cut * 2)
    })
}

pub fn c10() -> Check {
    Check {
        rule: "a case is a station with a contiguous output layout and random values, or the same layout with one offset made invalid; non-trivial: the station has outputs; distinct by layout and image",
        assumptions: &["overlapping output areas are not judged"],
        campaigns: vec![
            Campaign::random("stations", "every module's bytes land exactly at its offset", 25_000, |c| {
                let (lits, r) = (&c.cx.lits, &mut c.rng);
                let mut o = huge_opts(r);
                if r.bool() {
                    o.kinds = vec![Do4, Do4a, Do8, Do16, Ro4, Ao, AoDiag, Fcnt, Com, Di4];
                }
                let rig = Rig::gen(r, &o);
                let out = rig.gen_output(r, lits);
                let ms = modules(&rig)?;
                let inf = infos(&ms);
                // canonical values: decoded by the modules themselves
                let mut vals: Vec<Vec<ChannelValue>> = vec![];
                for (s, (m, _)) in rig.slots.iter().zip(&ms) {
                    vals.push(match s.out {
                        Some(o) => match m.process_output_data(&words_of(&out[o..o + s.out_len()])) {
                            Ok(v) => v,
                            Err(e) => fail!("{:?} cannot decode {:02x?}: {e:?}", s.kind, &out[o..o + s.out_len()]),
                        },
                        None => vec![ChannelValue::None; s.kind.channels()],
                    });
                }
                match process_output_values(&inf, &vals) {
                    Ok(g) => cmp_image(&out, &g, "encoded image", &rig)?,
                    Err(e) => fail!("values {vals:?} not encodable: {e:?} ({})", rig.show()),
                }
                // module count mismatch
                if r.chance(1, 8) {
                    let mut v = vals.clone();
                    if r.bool() || v.is_empty() {
                        v.push(vec![]);
                    } else {
                        v.pop();
                    }
                    let g = process_output_values(&inf, &v);
                    ensure!(g == Err(Error::ChannelValue), "{} values for {} modules: {g:?}", v.len(), inf.len());
                }
                // one list of values made invalid
                let os: Vec<usize> = (0..rig.slots.len()).filter(|i| rig.slots[*i].out.is_some()).collect();
                if !os.is_empty() && r.chance(1, 4) {
                    let m = *r.pick(&os);
                    let k = rig.slots[m].kind;
                    let mut v = vals.clone();
                    match r.below(5) {
                        0 => v[m].clear(),
                        1 => {
                            v[m].pop();
                        }
                        2 => v[m].push(ChannelValue::None),
                        3 => {
                            let x = v[m][0].clone();
                            v[m].push(x);
                        }
                        _ => {
                            let ch = r.below(k.channels());
                            v[m][ch] = loop {
                                let x = super::values::any_value(r, lits);
                                if !well_typed(k, &x) {
                                    break x;
                                }
                            };
                        }
                    }
                    let g = process_output_values(&inf, &v);
                    ensure!(g == Err(Error::ChannelValue), "values {:?} for module {m}: {g:?} ({})", v[m], rig.show());
                }
                // one offset made invalid
                let os: Vec<usize> = (0..rig.slots.len()).filter(|i| rig.slots[*i].out.is_some()).collect();
                if !os.is_empty() {
                    let v = *r.pick(&os);
                    let was = 0x8000 + rig.slots[v].out.unwrap_or(0) as u16 * 8;
                    let regs = (was - 0x8000) >> 4;
                    let new = match r.below(6) {
                        0 | 1 => {
                            let mut b = r.below(16) as u16;
                            if b % 8 == 0 {
                                b += 1;
                            }
                            (was & 0xFFF0) | b
                        }
                        2 => was + 0x10 * r.range(1, 20) as u16,
                        3 if regs > 0 => was - 0x10 * r.range(1, regs as usize) as u16,
                        4 => was - 0x8000,
                        _ => was ^ 8,
                    };
                    let mut ms = modules(&rig)?;
                    ms[v].1.output = Some(new);
                    let g = process_output_values(&infos(&ms), &vals);
                    ensure!(
                        g == Err(Error::ModuleOffset),
                        "offset of module {v} changed from {was:#x} to {new:#x}: {g:x?} ({})",
                        rig.show()
                    );
                    // a gap, and everything behind it in its place
                    let by = 8 * r.range(1, 40) as u16;
                    let mut gap = modules(&rig)?;
                    for m in &mut gap[v..] {
                        if let Some(o) = &mut m.1.output {
                            *o += by;
                        }
                    }
                    // filling up a register is not a gap
                    let first = 0x8000 + rig.slots[v].out.unwrap_or(0) as u16 * 8;
                    if by > 8 || first % 16 == 0 {
                        let g = process_output_values(&infos(&gap), &vals);
                        ensure!(
                            g == Err(Error::ModuleOffset),
                            "everything from module {v} on moved by {by} bits: {g:x?} ({})",
                            rig.show()
                        );
                    }
                    // the same as a coupler: its cycles must not deliver an image
                    let mut cfg = rig.config();
                    cfg.offsets[2 * v] = new;
                    if let Ok(mut cp) = Coupler::new(&cfg) {
                        let mut long = out.clone();
                        long.resize(long.len() + 128, 0);
                        let inp = rig.gen_input(r, lits);
                        let g = cp.next(&words_of(&inp), &words_of(&long));
                        ensure!(
                            g.is_err(),
                            "offset of module {v} changed from {was:#x} to {new:#x}: the coupler returned {g:x?} ({})",
                            rig.show()
                        );
                    }
                    c.obs.count("invalid layouts", 1);
                }
                c.obs.eval(2);
                if rig.out_size > 0 {
                    c.obs.case_hash(fnv(&out) ^ hash_rig(&rig));
                    c.obs.sample(|| rig.show());
                }
                Ok(())
            }),
            Campaign::all("pairs", "all ordered triples of module types with outputs, packed and register aligned", 9 * 9, |c| {
                let ks = [Do4, Do4a, Do8, Do16, Ro4, Ao, AoDiag, Fcnt, Com];
                let (a, b) = (ks[c.idx as usize % 9], ks[c.idx as usize / 9]);
                for third in ks {
                    for mask in 0..4u8 {
                        let r = &mut c.rng;
                        let mut slots = vec![];
                        let mut cur = 0;
                        for (i, k) in [a, b, third].into_iter().enumerate() {
                            let params = k.gen_params(r);
                            if i > 0 && mask >> (i - 1) & 1 == 1 && cur % 2 == 1 {
                                cur += 1;
                            }
                            let n = k.out_bytes(&params);
                            slots.push(Slot { kind: k, params, inp: None, out: Some(cur) });
                            cur += n;
                        }
                        let rig = Rig { slots, in_size: 0, out_size: cur };
                        let out = rig.gen_output(r, &c.cx.lits);
                        let ms = modules(&rig)?;
                        let inf = infos(&ms);
                        let vals = match process_output_data(&inf, &words_of(&out)) {
                            Ok(v) => v,
                            Err(e) => fail!("{out:02x?} not decodable: {e:?} ({})", rig.show()),
                        };
                        cmp_values(&expected(&rig, &out, false), &vals, "decoded output", &rig)?;
                        match process_output_values(&inf, &vals) {
                            Ok(g) => cmp_image(&out, &g, "encoded image", &rig)?,
                            Err(e) => fail!("{vals:?} not encodable: {e:?} ({})", rig.show()),
                        }
                        c.obs.eval(1);
                        c.obs.distinct(1);
                    }
                }
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C21

/// A value of a wrong type for an output module.
fn ill_typed(r: &mut Rng, k: Kind) -> ChannelValue {
    loop {
        let v = crate::checks::values::any_value(r, &[]);
        if !well_typed(k, &v) && !(k == Com) {
            return v;
        }
    }
}

fn corrupt_len(r: &mut Rng, b: &[u8], need: usize) -> Vec<u8> {
    // misses at least the last needed register
    let regs = need.div_ceil(2);
    if regs == 0 {
        return b.to_vec();
    }
    b[..2 * r.below(regs)].to_vec()
}

fn failing(case: &mut Case, len: usize) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let mut o = big_opts(r);
    o.kinds.extend([Com, Com, Com, Com, Do4, Ao]);
    o.max = o.max.min(12);
    let rig = Rig::gen(r, &o);
    let coms: Vec<usize> = rig
        .com_slots()
        .into_iter()
        .filter(|m| rig.slots[*m].out.is_some())
        .collect();
    let outs = rig.out_slots();
    let mut c = rig.coupler()?;
    let mut m = Model::new(&rig);
    let mut out = rig.gen_output(r, lits);
    let (mut image_faults, mut value_faults, mut ok) = (0u64, 0u64, 0u64);
    let mut h = hash_rig(&rig);
    // other possible sequence numbers of the last reported segment
    let mut alts: HashMap<usize, usize> = HashMap::new();
    let mut reports = 0;
    let mut inp = rig.gen_input(r, lits);
    for cyc in 0..len {
        inp = rig.next_input(r, lits, &inp);
        // serial traffic
        for s in &coms {
            if r.chance(1, 3) {
                let n = if r.chance(1, 150) { *r.pick(&[300, 1000, 5000, 20_000]) } else { r.range(1, 30) };
                let d = r.data(n);
                if r.bool() {
                    match c.writer(*s).map(|w| w.write_all(&d)) {
                        Some(Ok(())) => {}
                        x => fail!("write of {n} bytes: {x:?}"),
                    }
                    let udl = rig.slots[*s].out_len() - 2;
                    m.com.entry(*s).or_default().write(&d, udl);
                } else {
                    let _ = c.set_output(&addr(*s, 0), ChannelValue::Bytes(d.clone()));
                    m.set(*s, 0, ChannelValue::Bytes(d));
                }
            }
        }
        let mode = r.below(3);
        let mut tries = 0;
        // failing attempts
        if mode == 0 && rig.in_size + rig.out_size > 0 {
            if !outs.is_empty() && r.bool() {
                let s = *r.pick(&outs);
                let k = rig.slots[s].kind;
                let ch = r.below(k.channels());
                let v = gen_req(k, &rig.slots[s].params, ch, r, lits);
                let _ = c.set_output(&addr(s, ch), v.clone());
                m.set(s, ch, v);
            }
            for _ in 0..r.range(1, 3) {
                let (mut bi, mut bo) = (inp.clone(), out.clone());
                let com = if coms.is_empty() { None } else { Some(*r.pick(&coms)) };
                match (r.below(4), com) {
                    (0, Some(s)) => bi[rig.slots[s].inp.unwrap_or(0) + 1] = r.range(15, 255) as u8,
                    (1, Some(s)) => bo[rig.slots[s].out.unwrap_or(0) + 1] = r.range(15, 255) as u8,
                    (x, _) => {
                        if rig.in_size > 0 && (x % 2 == 0 || rig.out_size == 0) {
                            bi = corrupt_len(r, &bi, rig.in_size);
                        } else {
                            bo = corrupt_len(r, &bo, rig.out_size);
                        }
                    }
                }
                let res = c.next(&words_of(&bi), &words_of(&bo));
                ensure!(
                    res.is_err(),
                    "cycle {cyc}: truncated or malformed images accepted: input {bi:02x?}, output {bo:02x?} -> {res:x?} ({})",
                    rig.show()
                );
                m.check_values(&c, &format!("cycle {cyc}, after a rejected image"))?;
                image_faults += 1;
                tries += 1;
            }
        } else if mode == 1 && !outs.is_empty() {
            let s = *r.pick(&outs);
            let k = rig.slots[s].kind;
            let ch = r.below(k.channels());
            let v = ill_typed(r, k);
            // no other request of a non serial module is pending here
            if let Err(e) = c.set_output(&addr(s, ch), v.clone()) {
                // A library which rejects the value right away is fine, too.
                let _ = e;
            } else {
                let before: Vec<_> = (0..rig.slots.len()).map(|i| reported(&c, i)).collect();
                let res = c.next(&words_of(&inp), &words_of(&out));
                ensure!(
                    res.is_err(),
                    "cycle {cyc}: the request {v:?} for channel {ch} of module {s} ({k:?}) was accepted: {res:x?} ({})",
                    rig.show()
                );
                // A new segment is reported in the failed cycle or in the next
                // one, but not in both.
                for (i, cm) in &mut m.com {
                    let Some(oo) = rig.slots[*i].out else { continue };
                    let Some(o) = com_out(&out[oo..oo + rig.slots[*i].out_len()]) else { continue };
                    let is = reported(&c, *i);
                    if o.data.is_empty() {
                        alts.insert(*i, o.tx_cnt);
                    } else if o.tx_cnt != cm.last_tx_cnt {
                        let new = Some(ChannelValue::Bytes(o.data.clone()));
                        if is == new && before[*i] != new {
                            cm.last_tx_cnt = o.tx_cnt;
                            reports += 1;
                        } else if is == new {
                            alts.insert(*i, o.tx_cnt);
                        }
                    }
                }
                value_faults += 1;
                tries += 1;
            }
        }
        let want = m.step(&inp, &out);
        let what = format!("cycle {cyc}, after {tries} failed attempts");
        let got = next_ok(&mut c, &inp, &out, &what, &rig)?;
        cmp_image(&want, &got, &what, &rig)?;
        for (i, alt) in alts.drain() {
            // Both is fine if the failed cycle does not tell.
            let Some(o) = rig.slots[i].out.and_then(|oo| com_out(&out[oo..oo + rig.slots[i].out_len()])) else {
                continue;
            };
            let v = if o.data.is_empty() || o.tx_cnt == alt {
                ChannelValue::None
            } else {
                ChannelValue::Bytes(o.data)
            };
            if reported(&c, i).as_ref() == Some(&v) {
                m.outputs[i] = vec![Val::Is(v)];
            }
        }
        m.check_values(&c, &what)?;
        for s in &coms {
            let n = r.below(40);
            let w = m.com.entry(*s).or_default().read(n);
            let mut b = vec![0; n];
            match c.reader(*s).map(|x| read_full(x, &mut b)) {
                Some(Ok(k)) if k == w.len() && b[..k] == w[..] => {}
                x => fail!("{what}: module {s}: read of {n} bytes gave {x:?} {b:02x?} instead of {w:02x?} ({})", rig.show()),
            }
        }
        ok += 1;
        out = if r.chance(4, 5) { want } else { rig.next_output(r, lits, &want) };
        h = h.rotate_left(9) ^ fnv(&out);
    }
    case.obs.eval(ok + image_faults + value_faults);
    case.obs.count("cycles failed by images", image_faults);
    case.obs.count("cycles failed by requests", value_faults);
    case.obs.count("segments reported by failed cycles", reports);
    case.obs.count("successful cycles", ok);
    if image_faults + value_faults > 0 {
        case.obs.case_hash(h);
        case.obs.sample(|| format!("{len} cycles, {image_faults} + {value_faults} failures: {}", rig.show()));
    }
    Ok(())
}

/// The reported first output value of a module.
fn reported(c: &Coupler, i: usize) -> Option<ChannelValue> {
    c.outputs().get(i).and_then(|v| v.first()).cloned()
}

pub fn c21() -> Check {
    Check {
        rule: "a case is a station with serial traffic and requests whose cycles fail now and then (short image, malformed serial frame, ill typed request) and are repeated; every successful cycle has to equal the model which never saw the failures; non-trivial: at least one failed cycle",
        assumptions: &["whether other pending requests survive a cycle which fails because of an ill typed request is not judged", "inputs()/outputs() after such a cycle are judged only as far as a serial output segment may be reported there or after the next cycle, but not twice"],
        campaigns: vec![
            Campaign::random("histories", "short histories", 16_000, |c| {
                let n = c.rng.range(2, 14);
                failing(c, n)
            }),
            Campaign::random("long", "long histories", 60, |c| failing(c, 400)),
            Campaign::random("endless", "more than 2^16 cycles", 2, |c| failing(c, 66_000)),
        ],
    }
}

// ---------------------------------------------------------------- C22

fn reporting(case: &mut Case, len: usize) -> R {
    let (lits, r) = (&case.cx.lits, &mut case.rng);
    let mut o = big_opts(r);
    if r.bool() {
        o.kinds.extend([Com, Com, Com, Com]);
    }
    let rig = Rig::gen(r, &o);
    let mut c = rig.coupler()?;
    let mut m = Model::new(&rig);
    ensure!(c.inputs().is_empty() && c.outputs().is_empty(), "values reported before the first cycle ({})", rig.show());
    let mut out = rig.gen_output(r, lits);
    let mut inp = rig.gen_input(r, lits);
    let outs = rig.out_slots();
    let mut h = hash_rig(&rig);
    let hold = *r.pick(&[1, 1, 3]);
    for cyc in 0..len {
        if !outs.is_empty() && r.chance(1, 3) {
            let s = *r.pick(&outs);
            let k = rig.slots[s].kind;
            let ch = r.below(k.channels());
            let v = gen_req(k, &rig.slots[s].params, ch, r, lits);
            let _ = c.set_output(&addr(s, ch), v.clone());
            m.set(s, ch, v);
            // a request alone is not reported
            m.check_values(&c, &format!("cycle {cyc}, after a request"))?;
        }
        for s in rig.com_slots() {
            if r.chance(1, 4) && rig.slots[s].out.is_some() {
                let d = r.data(5);
                if let Some(Err(e)) = c.writer(s).map(|w| w.write_all(&d)) {
                    fail!("write failed: {e}");
                }
                m.com.entry(s).or_default().write(&d, rig.slots[s].out_len() - 2);
            }
        }
        if r.chance(1, hold) {
            inp = rig.next_input(r, lits, &inp);
        }
        let want = m.step(&inp, &out);
        let (pi, po) = (pad(r, &inp), pad(r, &out));
        next_ok(&mut c, &pi, &po, &format!("cycle {cyc}"), &rig)?;
        m.check_values(&c, &format!("cycle {cyc}"))?;
        h = h.rotate_left(5) ^ fnv(&inp);
        out = match r.below(4) {
            0 => rig.next_output(r, lits, &out),
            1 => out,
            _ => want,
        };
    }
    case.obs.eval(len as u64);
    case.obs.count("cycles", len as u64);
    case.obs.case_hash(h);
    case.obs.sample(|| format!("{len} cycles: {}", rig.show()));
    Ok(())
}

pub fn c22() -> Check {
    Check {
        rule: "a case is a station with random images over several cycles (fed back, repeated or changed by somebody else); inputs() and outputs() are compared with the decoded images after every cycle and request",
        assumptions: &[],
        campaigns: vec![
            Campaign::random("histories", "short histories", 20_000, |c| {
                let n = c.rng.range(1, 12);
                reporting(c, n)
            }),
            Campaign::random("long", "long histories", 40, |c| reporting(c, 2000)),
            Campaign::random("endless", "more than 2^16 cycles", 8, |c| reporting(c, 66_000)),
        ],
    }
}
