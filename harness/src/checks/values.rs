//! C11 - C16, C24: conversion between raw data and channel values.

use crate::{core::*, ensure, fail, rng::Rng, spec::*};
use std::time::Duration;
use ur20::{
    ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt, ur20_fbc_mod_tcp::ProcessModbusTcpData,
    ur20_pf_o_1di_sil as sil, ChannelValue, Error,
};

type Module = Box<dyn ProcessModbusTcpData>;

fn make(k: Kind, p: &[u16]) -> Result<Module, Fail> {
    match k.build(p) {
        Ok(m) => Ok(m),
        Err(e) => fail!("{k:?} rejects the valid parameters {p:?}: {e:?}"),
    }
}

/// Parameters with the given range / format in every channel.
fn uniform(k: Kind, range: u16, format: u16, r: &mut Rng) -> Vec<u16> {
    let mut p = k.gen_params(r);
    for ch in 0..k.channels() {
        if let Some(i) = k.range_pos(ch) {
            p[i] = range;
        }
        if let Some(i) = k.format_pos(ch) {
            p[i] = format;
        }
    }
    p
}

fn check_in(k: Kind, p: &[u16], m: &Module, w: &[u16]) -> R {
    let want = decode_in(k, p, &bytes_of(w)).unwrap_or_default();
    match m.process_input_data(w) {
        Ok(g) if matches_all(&want, &g) => Ok(()),
        g => fail!("{k:?} {p:?}: input {w:x?} is {g:?}, expected {want:?}"),
    }
}

fn check_out(k: Kind, p: &[u16], m: &Module, w: &[u16]) -> R {
    let want = decode_out(k, p, &bytes_of(w)).unwrap_or_default();
    match m.process_output_data(w) {
        Ok(g) if matches_all(&want, &g) => Ok(()),
        g => fail!("{k:?} {p:?}: output {w:x?} is {g:?}, expected {want:?}"),
    }
}

fn f(r: &mut Rng, lits: &[u64]) -> f32 {
    let x = new_f(r, lits);
    r.value(x)
}

fn new_f(r: &mut Rng, lits: &[u64]) -> f32 {
    match r.below(6) {
        0 => *r.pick(&[
            0.0,
            -0.0,
            1.0,
            -1.0,
            f32::MAX,
            f32::MIN,
            f32::MIN_POSITIVE,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::NAN,
            1e-40,
            32767.0,
            32768.0,
            1e10,
        ]),
        1 => f32::from_bits(r.u32()),
        2 => r.below(401) as f32 / 10.0 - 20.0,
        3 if !lits.is_empty() => *r.pick(lits) as f32,
        _ => (r.u32() as f64 / f64::from(u32::MAX) * 30.0 - 5.0) as f32,
    }
}

/// Any channel value at all.
pub fn any_value(r: &mut Rng, lits: &[u64]) -> ChannelValue {
    match r.below(10) {
        0 => ChannelValue::Bit(r.bool()),
        1 => ChannelValue::Decimal32(f(r, lits)),
        2 => {
            let n = *r.pick(&[0, 1, 6, 14, 300]);
            ChannelValue::ComRsIn(com::ProcessInput {
                data_available: r.bool(),
                buffer_nearly_full: r.bool(),
                rx_cnt: r.below(6),
                tx_cnt_ack: r.below(4),
                ready: r.bool(),
                data: r.data(n),
            })
        }
        3 => {
            let n = *r.pick(&[0, 1, 6, 7, 14, 15, 255, 256, 300]);
            ChannelValue::ComRsOut(com::ProcessOutput {
                rx_buf_flush: r.bool(),
                tx_buf_flush: r.bool(),
                disable_tx_hw_buffer: r.bool(),
                tx_cnt: *r.pick(&[0, 1, 2, 3, 4, usize::MAX]),
                rx_cnt_ack: *r.pick(&[0, 1, 2, 3, 4, 256]),
                reset: r.bool(),
                data: r.data(n),
            })
        }
        4 => ChannelValue::FcntIn(fcnt::ProcessInput {
            duration: r.bool().then(|| dur(r, lits)),
            count: r.u32(),
            active: r.bool(),
        }),
        5 => ChannelValue::FcntOut(fcnt::ProcessOutput {
            duration: dur(r, lits),
            command: *r.pick(&[None, Some(fcnt::Command::Start), Some(fcnt::Command::Stop)]),
        }),
        6 => ChannelValue::SilPFIn(sil::ProcessInput {
            safety_input: r.bool(),
            autostart: r.bool(),
            ..Default::default()
        }),
        7 => {
            let n = *r.pick(&[0, 1, 5, 6, 7, 14, 15, 100]);
            ChannelValue::Bytes(r.data(n))
        }
        8 => ChannelValue::Disabled,
        _ => ChannelValue::None,
    }
}

fn dur(r: &mut Rng, lits: &[u64]) -> Duration {
    match r.below(6) {
        0 => Duration::new(r.u64(), r.u32() % 1_000_000_000),
        1 => Duration::MAX,
        2 => Duration::from_micros(u64::from(FCNT_MAX_MICROS)) + Duration::from_nanos(r.below(3000) as u64),
        3 => Duration::from_secs(r.below(20) as u64),
        _ => Duration::from_micros(u64::from(gen_micros(r, lits))),
    }
}

pub fn c11() -> Check {
    Check {
        rule: "a case is one raw word of a digital module, enumerated completely for every module type, or one combination of channel values; all are distinct",
        assumptions: &[],
        campaigns: vec![
            Campaign::all("inputs", "all 65536 raw words of the digital input modules", 32, |c| {
                let k = [Di4, Di8][c.idx as usize % 2];
                let lo = (c.idx / 2) * 4096;
                let p = k.gen_params(&mut c.rng);
                let m = make(k, &p)?;
                for w in lo..lo + 4096 {
                    check_in(k, &p, &m, &[w as u16])?;
                }
                c.obs.eval(4096);
                c.obs.distinct(4096);
                Ok(())
            }),
            Campaign::all("outputs", "all raw words of the digital output modules, decoded and encoded; Disabled is off", 5 * 16, |c| {
                let k = [Do4, Do4a, Do8, Do16, Ro4][c.idx as usize % 5];
                let lo = (c.idx / 5) * 4096;
                let p = k.gen_params(&mut c.rng);
                let m = make(k, &p)?;
                let n = k.channels();
                for w in lo..lo + 4096 {
                    let w = w as u16;
                    check_out(k, &p, &m, &[w])?;
                    for dis in [0, c.rng.u16() & c.rng.u16() & c.rng.u16(), c.rng.u16() | c.rng.u16(), 0xFFFF] {
                    let vals: Vec<_> = (0..n)
                        .map(|i| {
                            if dis >> i & 1 == 1 {
                                ChannelValue::Disabled
                            } else {
                                ChannelValue::Bit(w >> i & 1 == 1)
                            }
                        })
                        .collect();
                    let mask = if n == 16 { 0xFFFF } else { (1u16 << n) - 1 };
                    let want = w & mask & !dis;
                    let got = m.process_output_values(&vals);
                    ensure!(got.as_ref().is_ok_and(|g| *g == [want]), "{k:?}: {vals:?} encoded as {got:x?} instead of {want:#x}");
                    }
                    c.obs.eval(5);
                    c.obs.distinct(1);
                }
                Ok(())
            }),
            Campaign::all("safety", "all status words of the safe power feed module", 64, |c| {
                let m = make(Sil, &[])?;
                let lo = c.idx * 1024;
                for w in lo..lo + 1024 {
                    // the reserved word: every low byte, every high byte
                    for b in 0..256u16 {
                        let x = c.rng.u16();
                        check_in(Sil, &[], &m, &[w as u16, (x & 0xFF00) | b])?;
                        check_in(Sil, &[], &m, &[w as u16, (x & 0x00FF) | b << 8])?;
                    }
                    for x in [0, 0xFFFF, 0xFF00, 0xFF, w as u16, !w as u16, (w as u16).swap_bytes()] {
                        check_in(Sil, &[], &m, &[w as u16, x])?;
                    }
                }
                c.obs.eval(1024 * 519);
                c.obs.distinct(1024 * 512);
                c.obs.sample(|| format!("safe power feed, words {lo:#x}.."));
                Ok(())
            }),
        ],
    }
}

/// Every raw word x format x range x channel.
fn sweep(k: Kind, range: u16, format: u16, c: &mut Case, input: bool) -> R {
    let p = uniform(k, range, format, &mut c.rng);
    let m = make(k, &p)?;
    let n = k.channels();
    let mut w = vec![0u16; n];
    for x in 0..=0xFFFFu16 {
        for (ch, s) in w.iter_mut().enumerate() {
            *s = x.wrapping_add((ch as u16).wrapping_mul(0x2491));
        }
        if input {
            check_in(k, &p, &m, &w)?;
        } else {
            check_out(k, &p, &m, &w)?;
        }
    }
    c.obs.eval(65536 * n as u64);
    c.obs.distinct(65536 * n as u64);
    c.obs.sample(|| format!("{k:?}: range {range}, format {format}, all raw words in all channels"));
    Ok(())
}

/// Channels with different ranges / formats must not influence each other.
fn mixed(ks: &'static [Kind], input: bool) -> impl Fn(&mut Case) -> R {
    move |c: &mut Case| {
        let k = *c.rng.pick(ks);
        let p = k.gen_params(&mut c.rng);
        let m = make(k, &p)?;
        for _ in 0..8 {
            let w: Vec<u16> = (0..k.channels()).map(|_| c.rng.word(&c.cx.lits)).collect();
            if input {
                check_in(k, &p, &m, &w)?;
            } else {
                check_out(k, &p, &m, &w)?;
            }
            c.obs.eval(1);
            let mut b = bytes_of(&w);
            b.extend(bytes_of(&p));
            c.obs.case_hash(crate::rng::fnv(&b));
        }
        Ok(())
    }
}

pub fn c12() -> Check {
    Check {
        rule: "a case is one raw register value for one channel with one range and data format; enumerated completely, plus random mixes of different channel configurations",
        assumptions: &["decoded values are compared with a tolerance of 2 % of one step"],
        campaigns: vec![
            Campaign::all("sweep", "every raw word x range x format x channel of the voltage and current input modules", 3 * 9 * 2 + 3 * 2, |c| {
                let i = c.idx as usize;
                if i < 54 {
                    sweep([Ui12, Ui16, UiDiag][i % 3], (i / 3 % 9) as u16, (i / 27) as u16, c, true)
                } else {
                    let i = i - 54;
                    sweep(I8, (i % 3) as u16, (i / 3) as u16, c, true)
                }
            }),
            Campaign::random("mixed", "random channel configurations", 60_000, mixed(&[Ui12, Ui16, UiDiag, I8], true)),
        ],
    }
}

fn encode_sweep(case: &mut Case) -> R {
    let i = case.idx as usize;
    let k = [Ao, AoDiag][i % 2];
    let format = (i / 2 % 2) as u16;
    let range = (i / 4) as u16;
    let p = uniform(k, range, format, &mut case.rng);
    let m = make(k, &p)?;
    let (off, span) = ui_range(range).unwrap_or((0.0, 10.0));
    let lsb = span / factor(format);
    let mut xs = [0f32; 4];
    for raw in -32800i32..=32800 {
        // on the step, and at random distances
        for d in [0.0, 0.25, -0.25, 0.45, -0.45, 0.5] {
            for (ch, x) in xs.iter_mut().enumerate() {
                let raw = if ch % 2 == 0 { raw } else { -raw };
                *x = ((f64::from(raw) + d) * lsb + off) as f32;
            }
            encode_one(k, &p, &m, &xs)?;
        }
    }
    case.obs.eval(65601 * 6 * 4);
    case.obs.distinct(65601 * 6 * 4);
    case.obs.sample(|| format!("{k:?}: range {range}, format {format}: values on and between all steps"));
    Ok(())
}

fn encode_one(k: Kind, p: &[u16], m: &Module, xs: &[f32]) -> R {
    let vals: Vec<_> = xs.iter().map(|x| ChannelValue::Decimal32(*x)).collect();
    let got = match m.process_output_values(&vals) {
        Ok(g) if g.len() == xs.len() => g,
        g => fail!("{k:?} {p:?}: {xs:?} encoded as {g:?}"),
    };
    for (ch, x) in xs.iter().enumerate() {
        let range = p[k.range_pos(ch).unwrap_or(0)];
        let format = p[k.format_pos(ch).unwrap_or(0)];
        let (a, b) = encode_analog(f64::from(*x), range, format);
        ensure!(
            got[ch] == a || got[ch] == b,
            "{k:?} channel {ch}, range {range}, format {format}: {x} encoded as {} instead of {}",
            got[ch] as i16,
            a as i16
        );
    }
    Ok(())
}

pub fn c13() -> Check {
    Check {
        rule: "a case is one requested value for one output channel with one range and format: every step and points between the steps enumerated, random and extreme values; decoding enumerated over every raw word",
        assumptions: &["NaN is not judged", "at a tie both neighbouring steps are accepted"],
        campaigns: vec![
            Campaign::all("encode", "on, between and beyond all steps x range x format", 2 * 2 * 9, encode_sweep),
            Campaign::all("decode", "every raw word x range x format x channel of the output state", 2 * 2 * 9, |c| {
                let i = c.idx as usize;
                sweep([Ao, AoDiag][i % 2], (i / 4) as u16, (i / 2 % 2) as u16, c, false)
            }),
            Campaign::random("mixed decode", "random channel configurations", 20_000, mixed(&[Ao, AoDiag], false)),
            Campaign::random("mixed encode", "random channel configurations, extreme values", 200_000, |c| {
                let r = &mut c.rng;
                let k = *r.pick(&[Ao, AoDiag]);
                let p = k.gen_params(r);
                let m = make(k, &p)?;
                let mut xs = vec![];
                while xs.len() < 4 {
                    let x = f(r, &c.cx.lits);
                    if !x.is_nan() {
                        xs.push(x);
                    }
                }
                encode_one(k, &p, &m, &xs)?;
                // a channel set to Disabled is written as zero
                let dis = r.below(4);
                let vals: Vec<_> = (0..4)
                    .map(|i| if i == dis { ChannelValue::Disabled } else { ChannelValue::Decimal32(xs[i]) })
                    .collect();
                match m.process_output_values(&vals) {
                    Ok(g) if g.len() == 4 && g[dis] == 0 => {}
                    g => fail!("{k:?} {p:?}: {vals:?} encoded as {g:?}"),
                }
                c.obs.eval(4);
                c.obs.case_hash(crate::rng::fnv(format!("{p:?}{xs:?}").as_bytes()));
                c.obs.sample(|| format!("{k:?} {p:?} {xs:?}"));
                Ok(())
            }),
        ],
    }
}

pub fn c14() -> Check {
    Check {
        rule: "a case is one raw register value for one channel with one measurement range; enumerated completely, plus random mixes of different channel configurations",
        assumptions: &["decoded values are compared with a tolerance of 2 % of one step"],
        campaigns: vec![
            Campaign::all("sweep", "every raw word x measurement range x channel x temperature unit", 3 * (19 + 20), |c| {
                let unit = (c.idx % 3) as u16;
                let i = (c.idx / 3) as usize;
                let (k, range) = if i < 19 { (Rtd, i) } else { (Tc, i - 19) };
                let mut p = uniform(k, range as u16, 0, &mut c.rng);
                p[0] = unit;
                let m = make(k, &p)?;
                for x in 0..=0xFFFFu16 {
                    let w = [x, x.wrapping_add(0x2491), x.wrapping_mul(3), !x];
                    check_in(k, &p, &m, &w)?;
                }
                c.obs.eval(65536 * 4);
                c.obs.distinct(65536 * 4);
                Ok(())
            }),
            Campaign::random("mixed", "random channel configurations", 60_000, mixed(&[Rtd, Tc], true)),
        ],
    }
}

pub fn c15() -> Check {
    Check {
        rule: "a case is one raw counter image or one requested preset; 24 bit presets and period boundaries are enumerated, the rest is random with boundary bias",
        assumptions: &["the frequency of a measured period of zero length is not judged"],
        campaigns: vec![
            Campaign::random("inputs", "random images: period, count, active flag of both channels, frequency", 400_000, |c| {
                let r = &mut c.rng;
                let p = Fcnt.gen_params(r);
                let m = make(Fcnt, &p)?;
                let mut w: Vec<u16> = (0..10).map(|_| r.word(&c.cx.lits)).collect();
                for ch in 0..2 {
                    if r.chance(2, 3) {
                        let d = match r.below(4) {
                            0 => FCNT_OVERRUN - 2 + r.below(5) as u32,
                            1 => r.below(70_000) as u32,
                            _ => r.below(FCNT_OVERRUN as usize) as u32,
                        };
                        w[4 * ch] = (d >> 16) as u16;
                        w[4 * ch + 1] = d as u16;
                    }
                }
                check_in(Fcnt, &p, &m, &w)?;
                if let Ok(v) = m.process_input_data(&w) {
                    for v in v {
                        if let ChannelValue::FcntIn(i) = v {
                            hertz(&i)?;
                        }
                    }
                }
                c.obs.eval(2);
                c.obs.case_hash(crate::rng::fnv(&bytes_of(&w)));
                c.obs.sample(|| format!("counter input {w:x?}"));
                Ok(())
            }),
            Campaign::all("period", "every measured period (27 bit) around the limits and on a grid", 128, |c| {
                let m = make(Fcnt, &[0, 0])?;
                let base = c.idx as u32;
                let mut ds = vec![];
                for b in 0..32 {
                    for x in -2i64..=2 {
                        ds.push(((1i64 << b) + x) as u32);
                    }
                }
                for x in 0..4096u32 {
                    ds.push((base * 4096 + x) * 257);
                    ds.push(FCNT_OVERRUN.wrapping_sub(2048).wrapping_add(x).wrapping_add(base << 25));
                }
                for d in ds {
                    let w = [(d >> 16) as u16, d as u16, d as u16, (d >> 16) as u16, (d & 0x1FF) as u16, 0, d as u16, 0, d as u16, (d >> 3) as u16];
                    check_in(Fcnt, &[0, 0], &m, &w)?;
                    c.obs.eval(1);
                    c.obs.distinct(1);
                }
                Ok(())
            }),
            Campaign::all("preset", "every encodable preset in microseconds, encoded and decoded", 128, |c| {
                let m = make(Fcnt, &[3, 16])?;
                let lo = c.idx as u32 * 65536;
                for us in lo..lo + 65536 {
                    let other = us ^ 0x2A_AAAA;
                    let cmd = |x: u32| [None, Some(fcnt::Command::Start), Some(fcnt::Command::Stop)][x as usize % 3];
                    let raw = |x: u32| [0u16, 0x100, 0x200][x as usize % 3];
                    let sub = u64::from(us % 1000);
                    let a = fcnt::ProcessOutput {
                        // fractions of a microsecond are dropped
                        duration: Duration::from_micros(u64::from(us)) + Duration::from_nanos(if us < FCNT_MAX_MICROS { sub } else { 0 }),
                        command: cmd(us),
                    };
                    let b = fcnt::ProcessOutput {
                        duration: Duration::from_micros(u64::from(other)),
                        command: cmd(us / 3),
                    };
                    let img = [(us >> 16) as u16, us as u16, (other >> 16) as u16, other as u16, raw(us), raw(us / 3)];
                    let got = m.process_output_values(&[ChannelValue::FcntOut(a), ChannelValue::FcntOut(b)]);
                    ensure!(got.as_ref().is_ok_and(|g| *g == img), "{a:?}, {b:?} encoded as {got:x?} instead of {img:x?}");
                    check_out(Fcnt, &[3, 16], &m, &img)?;
                }
                c.obs.eval(65536 * 2);
                c.obs.distinct(65536);
                Ok(())
            }),
            Campaign::random("outputs", "random output images and requests, too long presets", 200_000, |c| {
                let r = &mut c.rng;
                let p = Fcnt.gen_params(r);
                let m = make(Fcnt, &p)?;
                let w: Vec<u16> = (0..6).map(|_| r.word(&c.cx.lits)).collect();
                check_out(Fcnt, &p, &m, &w)?;
                let mk = |r: &mut Rng| fcnt::ProcessOutput {
                    duration: dur(r, &c.cx.lits),
                    command: None,
                };
                let (a, b) = (mk(r), mk(r));
                let max = Duration::from_micros(u64::from(FCNT_MAX_MICROS));
                let vals = [ChannelValue::FcntOut(a), ChannelValue::FcntOut(b)];
                let got = m.process_output_values(&vals);
                if a.duration > max || b.duration > max {
                    ensure!(got == Err(Error::ChannelValue), "{vals:?} encoded as {got:x?}");
                    c.obs.count("too long presets", 1);
                } else {
                    let mut want = vec![0u8; 12];
                    for (i, v) in vals.iter().enumerate() {
                        if apply(Fcnt, &p, &mut want, i, v).is_none() {
                            fail!("model rejects {v:?}");
                        }
                    }
                    ensure!(got.as_ref().ok() == Some(&words_of(&want)), "{vals:?} encoded as {got:x?} instead of {want:x?}");
                }
                c.obs.eval(2);
                c.obs.case_hash(crate::rng::fnv(format!("{w:?}{vals:?}").as_bytes()));
                Ok(())
            }),
            Campaign::random("frequency", "frequency of arbitrary measurements", 400_000, |c| {
                let r = &mut c.rng;
                let i = fcnt::ProcessInput {
                    duration: r.chance(7, 8).then(|| match r.below(4) {
                        0 => Duration::from_nanos(125 * (1 + r.below(1000) as u64)),
                        1 => Duration::from_secs(1 + r.below(16) as u64),
                        2 => Duration::from_millis(1 + r.below(17000) as u64),
                        _ => Duration::from_nanos(125 * (1 + r.below(FCNT_OVERRUN as usize - 1) as u64)),
                    }),
                    count: match r.below(3) {
                        0 => r.below(1000) as u32,
                        1 => r.u32(),
                        _ => *r.pick(&[0, 1, u32::MAX, 65535, 65536]),
                    },
                    active: r.bool(),
                };
                hertz(&i)?;
                c.obs.eval(1);
                c.obs.case_hash(crate::rng::fnv(format!("{i:?}").as_bytes()));
                Ok(())
            }),
        ],
    }
}

fn hertz(i: &fcnt::ProcessInput) -> R {
    let got = i.hertz();
    match i.duration {
        None => ensure!(got.is_none(), "frequency {got:?} without a period: {i:?}"),
        Some(d) if d.is_zero() => {}
        Some(d) => {
            let want = f64::from(i.count) / d.as_secs_f64();
            ensure!(
                got.is_some_and(|g| (f64::from(g) - want).abs() <= want * 1e-5),
                "frequency {got:?} instead of {want} for {i:?}"
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16() -> Check {
    use ur20::*;
    Check {
        rule: "a case is one raw word for all channels of a default configured module; enumerated over all words and module types, plus the default parameters themselves",
        assumptions: &[],
        campaigns: vec![
            Campaign::all("values", "default modules: every raw word", 18 * 16, |c| {
                let k = KINDS[c.idx as usize % 18];
                let lo = (c.idx / 18) * 4096;
                let m = k.default_mod();
                ensure!(m.module_type() == k.ty(), "the default {k:?} calls itself {:?}", m.module_type());
                // The parameters a default module stands for: everything
                // disabled, the 16 byte frame for serial modules.
                let mut p: Vec<u16> = k.fields().iter().map(|_| 0).collect();
                for ch in 0..k.channels() {
                    if let Some(i) = k.range_pos(ch) {
                        p[i] = match k {
                            I8 => 2,
                            Rtd => 18,
                            Tc => 19,
                            _ => 8,
                        };
                    }
                    if let Some(i) = k.format_pos(ch) {
                        p[i] = 1;
                    }
                }
                if k == Com {
                    p[0] = 1;
                }
                ensure!(
                    m.process_input_byte_count() == k.in_bytes(&p) && m.process_output_byte_count() == k.out_bytes(&p),
                    "default {k:?}: {} input and {} output bytes",
                    m.process_input_byte_count(),
                    m.process_output_byte_count()
                );
                for x in lo..lo + 4096 {
                    let x = x as u16;
                    if k == Com {
                        let b = gen_in(k, &p, &mut c.rng, &[]);
                        check_in(k, &p, &m, &words_of(&b))?;
                        let b = gen_out(k, &p, &mut c.rng, &[]);
                        check_out(k, &p, &m, &words_of(&b))?;
                    } else {
                        let n = k.in_bytes(&p).div_ceil(2);
                        let w: Vec<u16> = (0..n).map(|i| x.wrapping_add(i as u16 * 0x1357)).collect();
                        check_in(k, &p, &m, &w)?;
                        let n = k.out_bytes(&p).div_ceil(2);
                        let w: Vec<u16> = (0..n).map(|i| x.wrapping_add(i as u16 * 0x1357)).collect();
                        check_out(k, &p, &m, &w)?;
                        if matches!(k, Ao | AoDiag) {
                            let v: Vec<_> = (0..4)
                                .map(|i| ChannelValue::Decimal32(f32::from(x.wrapping_mul(i)) / 100.0 - 300.0))
                                .collect();
                            let g = m.process_output_values(&v);
                            ensure!(g.as_ref().is_ok_and(|g| *g == [0; 4]), "default {k:?}: {v:?} encoded as {g:?} although all channels are disabled");
                        }
                    }
                    c.obs.eval(2);
                    c.obs.distinct(1);
                }
                c.obs.sample(|| format!("default {k:?}, words {lo:#x}.."));
                Ok(())
            }),
            Campaign::all("messages", "the default process messages are those of an all-zero image", 2, |c| {
                use ur20_1com_232_485_422 as com;
                let long = c.idx == 1;
                let zero = vec![0u8; if long { 16 } else { 8 }];
                let (i, o) = (com::ProcessInput::default(), com::ProcessOutput::default());
                let g = com::ProcessInput::try_from_byte_message(&zero);
                ensure!(g.as_ref().is_ok_and(|g| *g == i), "default serial input {i:?}, all-zero image {g:?}");
                let g = com::ProcessOutput::try_from_byte_message(&zero);
                ensure!(g.as_ref().is_ok_and(|g| *g == o), "default serial output {o:?}, all-zero image {g:?}");
                let m = Fcnt.default_mod();
                let o = ChannelValue::FcntOut(fcnt::ProcessOutput::default());
                let g = m.process_output_data(&[0; 6]);
                ensure!(
                    g.as_ref().is_ok_and(|g| g.len() == 2 && g.iter().all(|g| *g == o)),
                    "default counter output {o:?}, all-zero image {g:?}"
                );
                c.obs.eval(3);
                c.obs.distinct(3);
                Ok(())
            }),
            Campaign::all("parameters", "the documented default parameters", 1, |c| {
                macro_rules! chans {
                    ($m:expr, $n:expr, $p:expr) => {{
                        let m = $m;
                        ensure!(m.ch_params.len() == $n, "{m:?}: {} channels", m.ch_params.len());
                        for ch in m.ch_params.iter() {
                            let d = $p;
                            ensure!(*ch == d, "default channel parameters {ch:?} instead of {d:?}");
                            c.obs.eval(1);
                            c.obs.distinct(1);
                        }
                    }};
                }
                use ur20_1com_232_485_422 as com;
                let di = || ur20_di_generic::ChannelParameters { input_delay: InputDelay::ms3 };
                chans!(ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>::default(), 4, di());
                chans!(ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>::default(), 8, di());
                let dop = || ur20_do_generic::ChannelParameters { substitute_value: false };
                chans!(ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>::default(), 4, dop());
                chans!(ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>::default(), 4, dop());
                chans!(ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>::default(), 8, dop());
                chans!(ur20_4ro_co_255::Mod::default(), 4, ur20_4ro_co_255::ChannelParameters { substitute_value: false });
                chans!(ur20_2fcnt_100::Mod::default(), 2, ur20_2fcnt_100::ChannelParameters { input_filter: InputFilter::us5 });
                chans!(ur20_4ao_ui_16::Mod::default(), 4, ur20_4ao_ui_16::ChannelParameters { data_format: DataFormat::S7, output_range: AnalogUIRange::Disabled, substitute_value: 0.0 });
                chans!(ur20_4ao_ui_16_diag::Mod::default(), 4, ur20_4ao_ui_16_diag::ChannelParameters { data_format: DataFormat::S7, output_range: AnalogUIRange::Disabled, substitute_value: 0.0, channel_diagnostics: false });
                let ui = || ur20_ai_ui_generic::ChannelParameters { data_format: DataFormat::S7, measurement_range: AnalogUIRange::Disabled };
                chans!(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>::default(), 4, ui());
                chans!(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>::default(), 4, ui());
                chans!(ur20_4ai_ui_16_diag::Mod::default(), 4, ur20_4ai_ui_16_diag::ChannelParameters { channel_diagnostics: false, diag_short_circuit: false, diag_line_break: false, data_format: DataFormat::S7, measurement_range: AnalogUIRange::Disabled });
                chans!(ur20_8ai_i_16_diag_hd::Mod::default(), 8, ur20_8ai_i_16_diag_hd::ChannelParameters { channel_diagnostics: false, diag_short_circuit: false, data_format: DataFormat::S7, measurement_range: AnalogIRange::Disabled });
                chans!(ur20_4ai_rtd_diag::Mod::default(), 4, ur20_4ai_rtd_diag::ChannelParameters { measurement_range: RtdRange::Disabled, connection_type: ConnectionType::TwoWire, conversion_time: ConversionTime::ms80, channel_diagnostics: false, limit_value_monitoring: false, high_limit_value: 0, low_limit_value: 0 });
                chans!(ur20_4ai_tc_diag::Mod::default(), 4, ur20_4ai_tc_diag::ChannelParameters { measurement_range: ur20_4ai_tc_diag::MeasurementRange::Disabled, cold_junction_compensation: ur20_4ai_tc_diag::ColdJunctionCompensation::Internal, conversion_time: ConversionTime::ms80, channel_diagnostics: false, limit_value_monitoring: false, high_limit_value: 32767, low_limit_value: -32768 });
                chans!(com::Mod::default(), 1, com::ChannelParameters { operating_mode: com::OperatingMode::Disabled, data_bits: com::DataBits::EightBits, baud_rate: com::BaudRate::Baud_9600, stop_bit: com::StopBit::OneBit, parity: com::Parity::None, flow_control: com::FlowControl::None, XON_char: '\u{11}', XOFF_char: '\u{13}', terminating_resistor: false });
                ensure!(com::Mod::default().mod_params.process_data_len == com::ProcessDataLength::SixteenBytes, "default frame length");
                ensure!(ur20_4ai_rtd_diag::Mod::default().mod_params.temperature_unit == TemperatureUnit::Celsius, "default RTD unit");
                ensure!(ur20_4ai_tc_diag::Mod::default().mod_params.temperature_unit == TemperatureUnit::Celsius, "default TC unit");
                ensure!(ur20_4ai_ui_16_diag::Mod::default().mod_params.frequency_suppression == FrequencySuppression::Disabled, "default suppression");
                ensure!(ur20_8ai_i_16_diag_hd::Mod::default().mod_params.frequency_suppression == FrequencySuppression::Disabled, "default suppression");
                ensure!(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>::default().mod_params.frequency_suppression == FrequencySuppression::Disabled, "default suppression");
                ensure!(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>::default().mod_params.frequency_suppression == FrequencySuppression::Disabled, "default suppression");
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C24

pub fn c24() -> Check {
    Check {
        rule: "a case is one module type with a list of channel values of arbitrary types and length, or raw data of arbitrary length; wrong lengths and every value type in every channel are enumerated",
        assumptions: &[],
        campaigns: vec![
            Campaign::random("types", "every value type in every channel of every output module", 40_000, |c| {
                let (lits, r) = (&c.cx.lits, &mut c.rng);
                let k = KINDS[c.idx as usize % 18];
                let p = k.gen_params(r);
                let m = make(k, &p)?;
                let base: Vec<ChannelValue> = (0..k.channels())
                    .map(|ch| if k == Com { ChannelValue::ComRsOut(Default::default()) } else { gen_req(k, &p, ch, r, lits) })
                    .collect();
                if k.has_out() {
                    let g = m.process_output_values(&base);
                    ensure!(g.is_ok(), "{k:?}: well typed values {base:?} rejected: {g:?}");
                    for ch in 0..k.channels() {
                        for _ in 0..6 {
                            let mut v = base.clone();
                            v[ch] = any_value(r, lits);
                            let g = m.process_output_values(&v);
                            let typed = well_typed(k, &v[ch]);
                            if k == Com {
                                let frame = match &v[ch] {
                                    ChannelValue::ComRsOut(o) => o.tx_cnt < 4 && o.rx_cnt_ack < 4 && o.data.len() <= k.out_bytes(&p) - 2,
                                    _ => false,
                                };
                                ensure!(g.is_ok() == frame, "{k:?} {p:?}: {v:?} -> {g:?}");
                                if !typed {
                                    ensure!(g == Err(Error::ChannelValue), "{k:?}: {v:?} -> {g:?}");
                                }
                            } else if typed {
                                let ok = g.as_ref().is_ok_and(|g| g.len() == k.out_bytes(&p).div_ceil(2));
                                ensure!(ok, "{k:?}: {v:?} -> {g:?}");
                            } else {
                                ensure!(g == Err(Error::ChannelValue), "{k:?} {p:?}: channel {ch} of {v:?} has a wrong type but the result is {g:?}");
                            }
                            c.obs.eval(1);
                        }
                    }
                } else {
                    // modules without outputs: nothing to encode
                    let v: Vec<_> = (0..k.channels()).map(|_| ChannelValue::None).collect();
                    ensure!(m.process_output_values(&v) == Ok(vec![]) && m.process_output_values(&[]) == Ok(vec![]), "{k:?}: encodes {:?}", m.process_output_values(&v));
                    c.obs.eval(1);
                }
                // equal values in all channels
                for _ in 0..4 {
                    let x = match r.below(4) {
                        0 => ChannelValue::Disabled,
                        1 => base[0].clone(),
                        _ => any_value(r, lits),
                    };
                    let v = vec![x.clone(); k.channels()];
                    let g = m.process_output_values(&v);
                    if !k.has_out() || k == Com {
                        continue;
                    }
                    if well_typed(k, &x) {
                        let ok = g.as_ref().is_ok_and(|g| g.len() == k.out_bytes(&p).div_ceil(2));
                        ensure!(ok, "{k:?}: {v:?} -> {g:?}");
                    } else {
                        ensure!(g == Err(Error::ChannelValue), "{k:?} {p:?}: {v:?} -> {g:?}");
                    }
                    c.obs.eval(1);
                }
                // wrong number of values
                for n in (0..=20).filter(|n| *n != k.channels()) {
                    if n == 0 && !k.has_out() {
                        continue;
                    }
                    let v: Vec<_> = (0..n).map(|i| base[i % base.len()].clone()).collect();
                    let g = m.process_output_values(&v);
                    ensure!(g == Err(Error::ChannelValue), "{k:?}: {n} values accepted: {g:?}");
                    c.obs.eval(1);
                }
                c.obs.case_hash(crate::rng::fnv(format!("{k:?}{p:?}{base:?}").as_bytes()));
                c.obs.sample(|| format!("{k:?} {p:?} {base:?}"));
                Ok(())
            }),
            Campaign::all("lengths", "raw data of every length 0..=40 for every module type", 18, |c| {
                let k = KINDS[c.idx as usize];
                for round in 0..20 {
                    let r = &mut c.rng;
                    let p = k.gen_params(r);
                    let m = make(k, &p)?;
                    for input in [true, false] {
                        let need = if input { k.in_bytes(&p) } else { k.out_bytes(&p) }.div_ceil(2);
                        for n in 0..=40 {
                            if k == Com && n > 0 {
                                // frames are checked by their own property
                                continue;
                            }
                            let mut w: Vec<u16> = (0..n).map(|_| r.u16()).collect();
                            match round % 5 {
                                0 => w.fill(0),
                                1 => w.fill(0xFFFF),
                                // only the needed part is used
                                2 => w.iter_mut().skip(need).for_each(|x| *x = 0),
                                3 => w.iter_mut().skip(need).for_each(|x| *x = 0xFFFF),
                                _ => {}
                            }
                            let g = if input { m.process_input_data(&w) } else { m.process_output_data(&w) };
                            if n == need {
                                ensure!(g.as_ref().is_ok_and(|g| g.len() == k.channels()), "{k:?} (input: {input}): {n} registers: {g:?}");
                            } else {
                                ensure!(g == Err(Error::BufferLength), "{k:?} (input: {input}): {n} registers instead of {need}: {g:?}");
                            }
                            c.obs.eval(1);
                            c.obs.distinct(1);
                        }
                    }
                }
                Ok(())
            }),
        ],
    }
}
