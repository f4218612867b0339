//! C20, C23, C27: arbitrary inputs, independent instances, bounded memory.

use crate::{core::*, ensure, fail, heap, rig::*, rng::Rng, spec::*};
use std::{str::FromStr, sync::mpsc};
use ur20::{
    ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt, ur20_fbc_mod_tcp::*, ChannelValue,
    ModuleCategory, ModuleType,
};

use super::values::any_value;

// ---------------------------------------------------------------- C20

/// Change the number of channel parameters, if they can be changed at all.
trait Tamper {
    fn tamper(&mut self, n: usize);
}
impl<T: Default> Tamper for Vec<T> {
    fn tamper(&mut self, n: usize) {
        self.resize_with(n, T::default);
    }
}
impl<T, const N: usize> Tamper for [T; N] {
    fn tamper(&mut self, _: usize) {}
}

/// A module whose public channel parameters were changed.
pub fn tampered(k: Kind, p: &[u16], n: usize) -> Option<Box<dyn ProcessModbusTcpData>> {
    use ur20::*;
    macro_rules! t {
        ($t:ty) => {{
            let mut m = <$t as FromModbusParameterData>::from_modbus_parameter_data(p).ok()?;
            m.ch_params.tamper(n);
            Box::new(m)
        }};
    }
    Some(match k {
        Di4 => t!(ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>),
        Di8 => t!(ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>),
        Do4 => t!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>),
        Do4a => t!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>),
        Do8 => t!(ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>),
        Ro4 => t!(ur20_4ro_co_255::Mod),
        Ui12 => t!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>),
        Ui16 => t!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>),
        UiDiag => t!(ur20_4ai_ui_16_diag::Mod),
        I8 => t!(ur20_8ai_i_16_diag_hd::Mod),
        Rtd => t!(ur20_4ai_rtd_diag::Mod),
        Tc => t!(ur20_4ai_tc_diag::Mod),
        Ao => t!(ur20_4ao_ui_16::Mod),
        AoDiag => t!(ur20_4ao_ui_16_diag::Mod),
        Fcnt => t!(ur20_2fcnt_100::Mod),
        Com => t!(ur20_1com_232_485_422::Mod),
        Do16 | Sil => return None,
    })
}

fn words(r: &mut Rng, n: usize, lits: &[u64]) -> Vec<u16> {
    (0..n).map(|_| r.word(lits)).collect()
}

/// Further valid blocks behind the parameters.
fn surplus(k: Kind, p: &mut Vec<u16>, r: &mut Rng) {
    for _ in 0..r.range(1, 3) {
        let more = k.gen_params(r);
        let from = r.below(3).min(more.len());
        p.extend(&more[from..]);
    }
}

/// Any configuration of supported modules.
fn wild_config(r: &mut Rng, lits: &[u64]) -> (Rig, CouplerConfig) {
    let o = if r.chance(1, 30) { Opts::default().n(1, 64) } else { Opts::default().n(0, 6) };
    let rig = Rig::gen(r, &o);
    let mut cfg = rig.config();
    match r.below(6) {
        // sound
        0 | 1 => {}
        // some offsets are arbitrary
        2 | 3 => {
            for w in &mut cfg.offsets {
                if r.chance(1, 3) {
                    *w = match r.below(5) {
                        0 => r.u16(),
                        1 => 0x8000 | r.below(0x400) as u16,
                        2 => r.below(0x400) as u16,
                        3 => w.wrapping_add(8),
                        _ => *r.pick(&[0xFFFF, 0xFFFE, 0xFFF8, 0xFFF0, 0x7FFF, 0x7FF8, 0x8000, 0x8008, 0, 8]),
                    };
                }
            }
        }
        // parameters are arbitrary
        4 => {
            for (p, s) in cfg.params.iter_mut().zip(&rig.slots) {
                if r.chance(1, 4) {
                    surplus(s.kind, p, r);
                } else if r.chance(1, 3) {
                    let n = r.below(90);
                    *p = words(r, n, lits);
                } else if r.chance(1, 3) {
                    let n = r.below(90);
                    let w = words(r, n, lits);
                    p.extend(w);
                }
            }
        }
        _ => {
            if r.bool() && !cfg.offsets.is_empty() {
                let n = r.below(cfg.offsets.len());
                cfg.offsets.truncate(n);
            } else {
                cfg.offsets.push(r.u16());
            }
            if r.bool() {
                cfg.params.push(vec![]);
            }
        }
    }
    (rig, cfg)
}

fn wild_image(r: &mut Rng, sane: &[u8], lits: &[u64]) -> Vec<u16> {
    let mut w = words_of(sane);
    match r.below(8) {
        0..=3 => {}
        4 => {
            let n = r.below(40);
            w = words(r, n, lits);
        }
        5 => {
            let n = r.below(w.len() + 1);
            w.truncate(n);
        }
        6 => {
            let n = r.below(300);
            let x = words(r, n, lits);
            w.extend(x);
        }
        _ => {
            for x in &mut w {
                if r.chance(1, 4) {
                    *x = r.word(lits);
                }
            }
        }
    }
    if r.chance(1, 400) {
        w.resize(0x1_0000, 0xA5A5);
    }
    w
}

fn wild_coupler(case: &mut Case, cycles: usize) -> R {
    let r = &mut case.rng;
    let lits = &case.cx.lits;
    let (rig, cfg) = wild_config(r, lits);
    let Ok(mut c) = Coupler::new(&cfg) else {
        case.obs.eval(1);
        case.obs.count("configurations refused", 1);
        return Ok(());
    };
    let n = cfg.modules.len();
    let mut fed: Option<Vec<u16>> = None;
    let mut buf = vec![0u8; 64];
    for _ in 0..cycles {
        for _ in 0..r.below(6) {
            let huge = [255, 256, 65_535, 65_536, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX];
            let m = match r.below(20) {
                0 => r.u64() as usize,
                1 => *r.pick(&huge),
                _ => r.below(n + 1),
            };
            let ch = match r.below(20) {
                0 => r.u64() as usize,
                1 => *r.pick(&huge),
                _ => r.below(17),
            };
            let v = any_value(r, lits);
            if let (Some(s), true) = (rig.slots.get(m), r.bool()) {
                let v = gen_req(s.kind, &s.params, ch % s.kind.channels(), r, lits);
                let _ = c.set_output(&addr(m, ch % s.kind.channels()), v);
            } else if r.chance(1, 3) {
                let _ = c.set_output(&addr(m, ch), v);
            }
            if let Some(w) = c.writer(m) {
                let l = r.below(50);
                let d = r.data(l);
                ensure!(w.write(&d).is_ok(), "write failed");
            }
            if let Some(x) = c.reader(m) {
                let l = r.below(64);
                match x.read(&mut buf[..l]) {
                    Ok(g) if g <= l => {}
                    g => fail!("read of {l} bytes returned {g:?}"),
                }
            }
        }
        let i = {
            let s = rig.gen_input(r, lits);
            wild_image(r, &s, lits)
        };
        let o = match (&fed, r.bool()) {
            (Some(f), true) => f.clone(),
            _ => {
                let s = rig.gen_output(r, lits);
                wild_image(r, &s, lits)
            }
        };
        match c.next(&i, &o) {
            Ok(x) => {
                ensure!(
                    c.inputs().len() == n && c.outputs().len() == n,
                    "{} / {} modules reported for {n}",
                    c.inputs().len(),
                    c.outputs().len()
                );
                fed = Some(x);
                case.obs.count("cycles succeeded", 1);
            }
            Err(e) => {
                let _ = e.to_string();
                case.obs.count("cycles failed", 1);
            }
        }
        case.obs.eval(1);
    }
    let _ = format!("{c:?}");
    case.obs
        .case_hash(crate::rng::fnv(format!("{:?}{:?}", cfg.offsets, cfg.params).as_bytes()));
    case.obs.sample(|| format!("{} offsets {:x?}", rig.show(), cfg.offsets));
    Ok(())
}

fn wild_module(case: &mut Case) -> R {
    let r = &mut case.rng;
    let lits = &case.cx.lits;
    let k = *r.pick(&KINDS);
    let p = k.gen_params(r);
    let how = r.below(3);
    let m = match how {
        0 => k.default_mod(),
        1 => match k.build(&p) {
            Ok(m) => m,
            Err(e) => fail!("{k:?} rejects {p:?}: {e:?}"),
        },
        _ => match tampered(k, &p, r.below(20)) {
            Some(m) => m,
            None => return Ok(()),
        },
    };
    let ch = m.module_type().channel_count();
    ensure!(ch == k.channels(), "{k:?} has {ch} channels");
    let _ = (m.process_input_byte_count(), m.process_output_byte_count());
    for _ in 0..4 {
        let n = if r.chance(1, 2) {
            let b = if r.bool() { m.process_input_byte_count() } else { m.process_output_byte_count() };
            b.div_ceil(2)
        } else {
            r.below(24)
        };
        let w = words(r, n, lits);
        let _ = m.process_input_data(&w);
        if let Ok(v) = m.process_output_data(&w) {
            let _ = m.process_output_values(&v);
        }
        let n = if r.chance(1, 2) { ch } else { r.below(20) };
        let same = r.bool().then(|| any_value(r, lits));
        let v: Vec<ChannelValue> = (0..n)
            .map(|_| match &same {
                Some(v) if r.chance(5, 6) => v.clone(),
                _ => any_value(r, lits),
            })
            .collect();
        let _ = m.process_output_values(&v);
        case.obs.eval(3);
        case.obs.case_hash(crate::rng::fnv(&bytes_of(&w)) ^ (k as u64) << 48 ^ (how as u64) << 56);
    }
    case.obs.count(["default modules", "configured modules", "tampered modules"][how], 1);
    // parameters
    let n = if r.bool() { k.fields().len() } else { r.below(90) };
    let w = words(r, n, lits);
    let _ = k.build(&w);
    let mut p = p;
    if r.bool() {
        surplus(k, &mut p, r);
        let _ = k.build(&p);
    }
    if !p.is_empty() {
        let i = r.below(p.len());
        p[i] = r.word(lits);
    }
    let _ = k.build(&p);
    case.obs.eval(3);
    Ok(())
}

fn wild_functions(case: &mut Case) -> R {
    let r = &mut case.rng;
    let lits = &case.cx.lits;
    let _ = ModuleType::try_from_u32(r.u32());
    let n = r.below(40);
    let s = String::from_utf8_lossy(&r.bytes(n)).into_owned();
    let _ = ModuleType::from_str(&s);
    let _ = ModuleCategory::from_str(&s);
    let n = r.below(300);
    let w = words(r, n, lits);
    let _ = offsets_of_process_data(&w);
    let _ = module_list_from_registers(&w);
    let (a, b) = to_register_address(r.u16());
    let _ = to_bit_address(a, b);
    let _ = to_bit_address(r.u16(), r.below(16));
    let n = r.below(40);
    let b = {
        let mut b = r.bytes(n);
        if n > 1 && r.bool() {
            b[1] = (n - 2 + r.below(3)) as u8;
        }
        b
    };
    let _ = com::ProcessInput::try_from_byte_message(&b);
    let _ = com::ProcessOutput::try_from_byte_message(&b);
    let o = com::ProcessOutput {
        tx_cnt: if r.bool() { r.below(6) } else { r.u64() as usize },
        rx_cnt_ack: if r.bool() { r.below(6) } else { r.u64() as usize },
        reset: r.bool(),
        data: b.clone(),
        ..Default::default()
    };
    for l in [com::ProcessDataLength::EightBytes, com::ProcessDataLength::SixteenBytes] {
        let _ = o.try_into_byte_message(&l);
        let _ = l.user_data_len();
    }
    let i = fcnt::ProcessInput {
        duration: r.chance(4, 5).then(|| std::time::Duration::new(r.u64() >> r.below(64), r.u32() % 1_000_000_000)),
        count: r.u32() >> r.below(32),
        active: r.bool(),
    };
    let _ = i.hertz();
    // the mapping functions with any combination of modules, offsets, data
    let rig = Rig::gen(r, &Opts::default().n(0, 5));
    let mods: Vec<_> = rig
        .slots
        .iter()
        .filter_map(|s| {
            let m = s.kind.build(&s.params).ok()?;
            let mut o = ModuleOffset {
                input: s.inp.map(|o| o as u16 * 8),
                output: s.out.map(|o| 0x8000 + o as u16 * 8),
            };
            if r.chance(1, 3) {
                o.input = Some(r.word(lits));
            }
            if r.chance(1, 3) {
                o.output = Some(if r.bool() { 0x8000 | r.below(64) as u16 * 8 } else { r.word(lits) });
            }
            Some((m, o))
        })
        .collect();
    let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = mods.iter().map(|(m, o)| (&**m, o)).collect();
    let i = {
        let s = rig.gen_input(r, lits);
        wild_image(r, &s, lits)
    };
    let o = {
        let s = rig.gen_output(r, lits);
        wild_image(r, &s, lits)
    };
    let _ = process_input_data(&infos, &i);
    if let Ok(mut v) = process_output_data(&infos, &o) {
        if r.bool() && !v.is_empty() {
            let m = r.below(v.len());
            match r.below(4) {
                0 => {
                    v.pop();
                }
                1 => v[m].clear(),
                2 => v[m].push(ChannelValue::None),
                _ => {
                    if !v[m].is_empty() {
                        let ch = r.below(v[m].len());
                        v[m][ch] = any_value(r, lits);
                    }
                }
            }
        }
        let _ = process_output_values(&infos, &v);
    }
    case.obs.eval(14);
    case.obs.case_hash(crate::rng::fnv(&bytes_of(&w)) ^ crate::rng::fnv(&b));
    Ok(())
}

fn wild_processor(case: &mut Case) -> R {
    use std::io::{Read, Write};
    let r = &mut case.rng;
    let mut p = com::MessageProcessor::new(if r.bool() {
        com::ProcessDataLength::EightBytes
    } else {
        com::ProcessDataLength::SixteenBytes
    });
    let mut buf = [0u8; 300];
    let mut h = 0u64;
    let steps = if r.chance(1, 4000) { 70_000 } else { r.range(1, 60) };
    for step in 0..steps {
        let n = r.below(300);
        let any = |r: &mut Rng| match r.below(6) {
            0 => *r.pick(&[4, 5, 7, 8, 254, 255, 256, 65_535, 65_536, usize::MAX / 2, usize::MAX - 1, usize::MAX]),
            1 => r.u64() as usize,
            _ => r.below(4),
        };
        let i = com::ProcessInput {
            data_available: r.bool(),
            buffer_nearly_full: r.bool(),
            rx_cnt: any(r),
            tx_cnt_ack: any(r),
            ready: r.bool(),
            data: r.bytes(n),
        };
        let n = r.below(300);
        let o = com::ProcessOutput {
            rx_buf_flush: r.bool(),
            tx_buf_flush: r.bool(),
            disable_tx_hw_buffer: r.bool(),
            tx_cnt: if r.bool() { r.below(4) } else { r.u64() as usize },
            rx_cnt_ack: if r.bool() { r.below(4) } else { r.u64() as usize },
            reset: r.bool(),
            data: r.bytes(n),
        };
        let x = p.next(&i, &o);
        h = h.rotate_left(5) ^ crate::rng::fnv(format!("{i:?}{x:?}").as_bytes());
        let _ = x.try_into_byte_message(&com::ProcessDataLength::EightBytes);
        let n = if step < 300 { r.below(100) } else { r.below(4) };
        let d = r.bytes(n);
        ensure!(p.write(&d).is_ok() && p.flush().is_ok(), "write failed");
        let n = r.below(300);
        ensure!(p.read(&mut buf[..n]).is_ok(), "read failed");
        case.obs.eval(1);
    }
    case.obs.case_hash(h);
    Ok(())
}

pub fn c20() -> Check {
    Check {
        rule: "a case is one coupler with an arbitrary configuration under arbitrary requests and images, one module (configured, default or with tampered public parameters) under arbitrary data and values, or one set of calls of the remaining public functions; sound, nearly sound and arbitrary operands are mixed",
        assumptions: &[
            "excluded: module types without support (documented panic), more than 64 modules in parameter address lists",
            "one build has overflow checks and debug assertions enabled, a second one is a plain release build",
        ],
        campaigns: vec![
            Campaign::random("couplers", "arbitrary configurations, requests and images", 40_000, |c| {
                let n = c.rng.range(1, 12);
                wild_coupler(c, n)
            }),
            Campaign::random("long", "long arbitrary histories", 60, |c| wild_coupler(c, 600)),
            Campaign::random("endless", "more than 2^16 cycles and requests", 12, |c| wild_coupler(c, 66_000)),
            Campaign::random("sound", "more than 2^16 cycles which all succeed, with valid requests", 6, |c| {
                let r = &mut c.rng;
                let lits = &c.cx.lits;
                let rig = Rig::gen(r, &Opts::default().n(1, 4));
                let mut cp = rig.coupler()?;
                let imgs: Vec<_> = (0..8).map(|_| (words_of(&rig.gen_input(r, lits)), words_of(&rig.gen_output(r, lits)))).collect();
                let outs = rig.out_slots();
                let mut ok = 0;
                for i in 0..66_000usize {
                    let (a, b) = &imgs[r.below(8)];
                    if i % 3 == 0 && !outs.is_empty() {
                        let m = *r.pick(&outs);
                        let ch = r.below(rig.slots[m].kind.channels());
                        let v = gen_req(rig.slots[m].kind, &rig.slots[m].params, ch, r, lits);
                        let _ = cp.set_output(&addr(m, ch), v);
                    }
                    ok += u64::from(cp.next(a, b).is_ok());
                    c.obs.eval(1);
                }
                c.obs.count("cycles which succeeded", ok);
                c.obs.case_hash(crate::rng::fnv(rig.show().as_bytes()));
                Ok(())
            }),
            Campaign::random("modules", "arbitrary data and values on single modules", 150_000, wild_module),
            Campaign::random("functions", "the remaining public functions", 60_000, wild_functions),
            Campaign::random("processors", "message processors under arbitrary messages", 8000, wild_processor),
            Campaign::random("many modules", "stations of up to 300 modules", 40, |c| {
                let r = &mut c.rng;
                let n = r.range(64, 300);
                let one = *r.pick(&KINDS);
                let mono = r.chance(1, 3);
                let mods = (0..n).map(|_| {
                    let k = match (mono, c.idx) {
                        (_, 0) => Com,
                        (true, _) if r.chance(9, 10) => one,
                        _ => *r.pick(&KINDS),
                    };
                    (k, k.gen_params(r))
                });
                let mods: Vec<_> = mods.collect();
                let rig = Rig::layout(r, mods, &Opts { absent: 30, in_gaps: false, ..Opts::default() });
                if rig.in_size > 0x0FF0 || rig.out_size > 0x0FF0 {
                    return Ok(());
                }
                let mut cpl = rig.coupler()?;
                let mut m = Model::new(&rig);
                let mut o = rig.zero_output();
                for _ in 0..4 {
                    let i = rig.gen_input(r, &c.cx.lits);
                    let w = m.step(&i, &o);
                    let g = next_ok(&mut cpl, &i, &o, "cycle", &rig)?;
                    cmp_image(&w, &g, "large station", &rig)?;
                    o = w;
                    c.obs.eval(1);
                }
                c.obs.case_hash(crate::rng::fnv(rig.show().as_bytes()));
                c.obs.count("modules in large stations", n as u64);
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug)]
enum Op {
    Next(Vec<u16>, Option<Vec<u16>>),
    Set(usize, usize, ChannelValue),
    Write(usize, Vec<u8>),
    Read(usize, usize),
}

#[derive(Clone)]
struct Script {
    rig: Rig,
    ops: Vec<Op>,
}

fn gen_script(r: &mut Rng, lits: &[u64], len: usize) -> Script {
    let mut o = Opts::default().n(1, 6);
    if r.bool() {
        o.kinds.extend([Com, Com, Com, Ao, Fcnt]);
    }
    let rig = Rig::gen(r, &o);
    let mut ops = vec![];
    for _ in 0..len {
        let m = r.below(rig.slots.len());
        let s = &rig.slots[m];
        ops.push(match r.below(8) {
            0 | 1 => {
                let ch = r.below(s.kind.channels());
                let v = if r.chance(1, 30) {
                    any_value(r, lits)
                } else if s.kind == Com {
                    let n = r.below(30);
                    ChannelValue::Bytes(r.data(n))
                } else {
                    gen_req(s.kind, &s.params, ch, r, lits)
                };
                Op::Set(m, ch, v)
            }
            2 => {
                let n = r.below(40);
                Op::Write(m, r.data(n))
            }
            3 => Op::Read(m, r.below(20)),
            _ => {
                let i = rig.gen_input(r, lits);
                let i = if r.chance(1, 30) { wild_image(r, &i, lits) } else { words_of(&i) };
                let o = r.chance(1, 4).then(|| words_of(&rig.gen_output(r, lits)));
                Op::Next(i, o)
            }
        });
    }
    Script { rig, ops }
}

/// One running instance with the hash of everything observed.
struct Run {
    c: Coupler,
    out: Vec<u16>,
    log: Vec<u64>,
}

impl Run {
    fn new(s: &Script) -> Result<Run, Fail> {
        Ok(Run {
            c: s.rig.coupler()?,
            out: words_of(&s.rig.zero_output()),
            log: vec![],
        })
    }
    fn step(&mut self, op: &Op) {
        let t = match op {
            Op::Next(i, o) => {
                let o = o.clone().unwrap_or_else(|| self.out.clone());
                let x = self.c.next(i, &o);
                if let Ok(n) = &x {
                    self.out = n.clone();
                }
                format!("{x:?} {:?} {:?}", self.c.inputs(), self.c.outputs())
            }
            Op::Set(m, ch, v) => format!("{:?}", self.c.set_output(&addr(*m, *ch), v.clone())),
            Op::Write(m, d) => match self.c.writer(*m) {
                Some(w) => format!("{:?}", w.write(d).ok()),
                None => String::new(),
            },
            Op::Read(m, n) => match self.c.reader(*m) {
                Some(x) => {
                    let mut b = vec![0; *n];
                    let g = x.read(&mut b).ok();
                    format!("{g:?} {b:?}")
                }
                None => String::new(),
            },
        };
        self.log.push(crate::rng::fnv(t.as_bytes()));
    }
}

fn hash_logs(l: &[Vec<u64>]) -> u64 {
    l.iter().flatten().fold(7, |h, x| h.rotate_left(7) ^ x)
}

fn solo(s: &Script) -> Result<Vec<u64>, Fail> {
    let mut run = Run::new(s)?;
    for op in &s.ops {
        run.step(op);
    }
    Ok(run.log)
}

fn same(a: &[u64], b: &[u64], what: &str, s: &Script) -> R {
    ensure!(a.len() == b.len(), "{what}: incomplete run");
    if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
        fail!(
            "{what}: step {i} ({:?}) behaves differently than in a run of the same history on its own ({})",
            s.ops[i],
            s.rig.show()
        );
    }
    Ok(())
}

fn isolation(case: &mut Case, len: usize) -> R {
    let r = &mut case.rng;
    let n = r.range(2, 5);
    let lits = &case.cx.lits;
    let mut scripts: Vec<Script> = vec![];
    for i in 0..n {
        if i > 0 && r.chance(1, 2) {
            let mut s = scripts[0].clone();
            if r.bool() {
                // the same history of a station with other settings
                for x in &mut s.rig.slots {
                    if x.kind != Com && r.bool() {
                        x.params = x.kind.gen_params(r);
                    }
                }
            }
            scripts.push(s);
        } else {
            let l = r.range(len / 2, len);
            scripts.push(gen_script(r, lits, l));
        }
    }
    let want: Vec<Vec<u64>> = scripts.iter().map(solo).collect::<Result<_, _>>()?;
    // again
    for (s, w) in scripts.iter().zip(&want) {
        same(w, &solo(s)?, "repeated run", s)?;
    }
    // interleaved
    let mut runs: Vec<Run> = scripts.iter().map(Run::new).collect::<Result<_, _>>()?;
    let mut at = vec![0; n];
    let mut switches = 0u64;
    let mut last = 0;
    let in_turn = r.chance(1, 3);
    while let Some(i) = {
        let open: Vec<usize> = (0..n).filter(|i| at[*i] < scripts[*i].ops.len()).collect();
        if in_turn {
            open.into_iter().min_by_key(|i| at[*i])
        } else {
            (!open.is_empty()).then(|| *r.pick(&open))
        }
    } {
        if i != last {
            switches += 1;
            last = i;
        }
        runs[i].step(&scripts[i].ops[at[i]]);
        at[i] += 1;
    }
    for i in 0..n {
        same(&want[i], &runs[i].log, "interleaved with other couplers", &scripts[i])?;
    }
    case.obs.eval(2 * n as u64);
    case.obs.count("operations", 3 * scripts.iter().map(|s| s.ops.len() as u64).sum::<u64>());
    case.obs.count("switches between instances", switches);
    case.obs.case_hash(hash_logs(&want));
    case.obs.sample(|| format!("{n} couplers, {switches} switches, first: {}", scripts[0].rig.show()));
    Ok(())
}

fn threads(case: &mut Case, len: usize) -> R {
    let r = &mut case.rng;
    let lits = &case.cx.lits;
    let n = r.range(2, 6);
    let scripts: Vec<Script> = (0..n).map(|_| gen_script(r, lits, len)).collect();
    let want: Vec<Vec<u64>> = scripts.iter().map(solo).collect::<Result<_, _>>()?;
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let got: Vec<Result<Vec<u64>, Fail>> = std::thread::scope(|sc| {
        let hs: Vec<_> = scripts
            .iter()
            .zip(&seeds)
            .map(|(s, seed)| {
                sc.spawn(move || {
                    let mut r = Rng::new(*seed);
                    let mut run = Run::new(s)?;
                    for op in &s.ops {
                        if r.chance(1, 8) {
                            std::thread::yield_now();
                        }
                        run.step(op);
                    }
                    Ok(run.log)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err(Fail("the library panicked in a thread of its own".into()))))
            .collect()
    });
    for (i, g) in got.into_iter().enumerate() {
        same(&want[i], &g?, "in parallel with couplers in other threads", &scripts[i])?;
    }
    case.obs.eval(n as u64);
    case.obs.count("parallel runs", n as u64);
    case.obs.case_hash(hash_logs(&want));
    Ok(())
}

/// The coupler moves from thread to thread while it is in use.
#[cfg(feature = "send")]
fn migrate(case: &mut Case, len: usize) -> R {
    let r = &mut case.rng;
    let s = gen_script(r, &case.cx.lits, len);
    let want = solo(&s)?;
    let mut run = Run::new(&s)?;
    let chunk = r.range(1, 8);
    let mut moves = 0u64;
    for ops in s.ops.chunks(chunk) {
        let ops = ops.to_vec();
        let (tx, rx) = mpsc::channel();
        let name = ["main", "worker", "modbus", "tokio-runtime-worker", "io", "0"][moves as usize % 6];
        let th = std::thread::Builder::new().name(name.into());
        let h = th.spawn(move || {
            let mut run: Run = run;
            for op in &ops {
                run.step(op);
            }
            let _ = tx.send(run);
        });
        run = match rx.recv() {
            Ok(r) => r,
            Err(_) => fail!("the library panicked after the coupler was moved to another thread"),
        };
        if let Ok(h) = h {
            let _ = h.join();
        }
        moves += 1;
    }
    same(&want, &run.log, "moved between threads", &s)?;
    case.obs.eval(1);
    case.obs.count("moves between threads", moves);
    case.obs.case_hash(hash_logs(&[want]));
    Ok(())
}
#[cfg(not(feature = "send"))]
fn migrate(case: &mut Case, _: usize) -> R {
    let _ = (mpsc::channel::<u8>(), case);
    Ok(())
}

/// Stateless conversions give the same answer whatever happened in between.
fn pure(case: &mut Case) -> R {
    let r = &mut case.rng;
    let lits = &case.cx.lits;
    let k = *r.pick(&KINDS);
    let p = k.gen_params(r);
    let Ok(m) = k.build(&p) else {
        fail!("{k:?} rejects {p:?}");
    };
    let i = words_of(&gen_in(k, &p, r, lits));
    let o = words_of(&gen_out(k, &p, r, lits));
    let eval = || {
        let v = m.process_output_data(&o);
        let b = v.as_ref().ok().map(|v| m.process_output_values(v));
        format!("{:?} {v:?} {b:?}", m.process_input_data(&i))
    };
    let first = eval();
    for _ in 0..r.range(1, 20) {
        // another module, perhaps of the same kind and with the same data
        let k2 = if r.bool() { k } else { *r.pick(&KINDS) };
        let p2 = k2.gen_params(r);
        if let Ok(m2) = k2.build(&p2) {
            let again = k2 == k && r.bool();
            let i2 = if again { i.clone() } else { words_of(&gen_in(k2, &p2, r, lits)) };
            let o2 = if again { o.clone() } else { words_of(&gen_out(k2, &p2, r, lits)) };
            let _ = m2.process_input_data(&i2);
            if let Ok(v) = m2.process_output_data(&o2) {
                let _ = m2.process_output_values(&v);
            }
        }
        let i3 = words_of(&gen_in(k, &p, r, lits));
        let _ = m.process_input_data(&i3);
        let o3 = words_of(&gen_out(k, &p, r, lits));
        let _ = m.process_output_data(&o3);
        let second = eval();
        ensure!(first == second, "{k:?} {p:?}: the same data is converted to {first} first and to {second} later");
        case.obs.eval(1);
    }
    case.obs.case_hash(crate::rng::fnv(first.as_bytes()));
    Ok(())
}

pub fn c23() -> Check {
    Check {
        rule: "a case is a set of scripted histories (requests, serial reads and writes, cycles, some failing), run alone, again, interleaved operation by operation, in parallel threads, or moved between threads; the hashes of all results and reported values are compared step by step",
        assumptions: &["thread schedules are those of the operating system with random yields"],
        campaigns: vec![
            Campaign::random("interleaved", "2-5 couplers in one thread", 4000, |c| isolation(c, 60)),
            Campaign::random("threads", "2-6 couplers in parallel threads", 600, |c| threads(c, 80)),
            Campaign::random("moved", "a coupler moved between threads after every few operations", 300, |c| migrate(c, 60)),
            Campaign::random("conversions", "stateless conversions, repeated among others", 20_000, pure),
        ],
    }
}

// ---------------------------------------------------------------- C27

/// The same epoch of operations again and again.
fn heap_growth(case: &mut Case, epochs: usize) -> R {
    let r = &mut case.rng;
    let lits = &case.cx.lits;
    let many = r.chance(1, 8);
    let mut o = match (many, r.below(60)) {
        (true, _) => Opts::default().n(10, 24),
        (_, 0) => Opts::default().n(40, 90),
        _ => Opts::default().n(1, 6),
    };
    if r.bool() {
        o.kinds.extend([Com, Com, Com]);
    }
    let rig = Rig::gen(r, &o);
    let coms: Vec<usize> = rig.com_slots().into_iter().filter(|m| rig.slots[*m].out.is_some()).collect();
    // The inputs of an epoch; the serial modules acknowledge at once.
    let cycles = 12usize;
    let mut images: Vec<Vec<u8>> = (0..cycles).map(|_| rig.gen_input(r, lits)).collect();
    if r.chance(1, 6) {
        // the images are longer than needed
        let n = r.range(1, 300) * 2;
        for i in &mut images {
            let n = i.len() + i.len() % 2 + n;
            i.resize(n, 0);
        }
    }
    let bad = r.chance(1, 3);
    // always something left to transmit
    let saturated = !coms.is_empty() && r.chance(1, 3);
    // how received data is read: until nothing is left, exactly what was
    // received, in single bytes, or always leaving a few bytes behind
    let read_mode = r.below(5);
    let keep = r.range(1, 20);
    let mut reqs: Vec<(usize, usize, usize, ChannelValue)> = vec![];
    for _ in 0..if many { 160 } else { r.below(12) } {
        let m = r.below(rig.slots.len());
        let s = &rig.slots[m];
        let ch = r.below(s.kind.channels());
        let v = if s.kind == Com {
            // what can be sent within an epoch
            if saturated || reqs.iter().filter(|q| q.1 == m).count() > 1 {
                continue;
            }
            let n = r.below(13);
            ChannelValue::Bytes(r.data(n))
        } else {
            gen_req(s.kind, &s.params, ch, r, lits)
        };
        let at = if many { r.below(2) } else { r.below(cycles / 2) };
        reqs.push((at, m, ch, v));
    }
    let wild = rig.out_slots();
    {
        // Whatever is set up once per process is not the subject.
        let mut c = rig.coupler()?;
        let mut out = words_of(&rig.zero_output());
        for i in &images {
            if let Ok(o) = c.next(&words_of(i), &out) {
                out = o;
            }
        }
    }
    let before = heap::live();
    let mut base = 0;
    let mut base_req = 0;
    {
        let mut c = rig.coupler()?;
        let mut out = rig.zero_output();
        let mut buf = vec![0u8; 256];
        let mut start_req;
        // what the serial modules have received and what was read
        let mut rx: Vec<ComModel> = coms.iter().map(|_| ComModel::default()).collect();
        let mut unread = vec![0usize; coms.len()];
        if saturated {
            for m in &coms {
                if let Some(w) = c.writer(*m) {
                    let _ = w.write(&[7; 60]);
                }
            }
        }
        for e in 0..epochs {
            start_req = heap::requested();
            for k in 0..cycles {
                for (at, m, ch, v) in &reqs {
                    if *at == k {
                        let _ = c.set_output(&addr(*m, *ch), v.clone());
                    }
                }
                for m in &coms {
                    let n = match (saturated, k) {
                        (true, _) => rig.slots[*m].out_len() - 2,
                        (_, 1) => 7,
                        _ => 0,
                    };
                    if let Some(w) = c.writer(*m) {
                        let _ = w.write(&buf[..n]);
                    }
                }
                if k == 1 {
                    // always another address which does not exist
                    let n = e * 7 + rig.slots.len();
                    let _ = c.set_output(&addr(n, e), ChannelValue::Bytes(vec![0; 20]));
                    let _ = c.set_output(&addr(e % rig.slots.len(), 16 + e), ChannelValue::Bit(true));
                }
                if bad && k == 2 {
                    // a failing cycle: bad image, bad request
                    ensure!(rig.in_size == 0 || c.next(&[], &words_of(&out)).is_err(), "a cycle without input data succeeded");
                    if let Some(m) = wild.first() {
                        let _ = c.set_output(&addr(*m, 0), ChannelValue::Bytes(vec![1; 30]));
                        let _ = c.next(&words_of(&images[0]), &words_of(&out));
                    }
                }
                let mut i = images[k].clone();
                for m in &coms {
                    let s = &rig.slots[*m];
                    let (Some(io), Some(oo)) = (s.inp, s.out) else { continue };
                    // acknowledge what was sent, keep the rest of the image
                    i[io] = i[io] & !0x60 | (out[oo] >> 3 & 3) << 5;
                }
                for (n, m) in coms.iter().enumerate() {
                    let s = &rig.slots[*m];
                    let (Some(io), Some(oo)) = (s.inp, s.out) else { continue };
                    if let (Some(i), Some(o)) = (com_in(&i[io..io + s.in_len()]), com_out(&out[oo..oo + s.out_len()])) {
                        rx[n].step(&i, &o);
                        unread[n] += rx[n].rx.len();
                        rx[n].rx.clear();
                    }
                }
                let g = next_ok(&mut c, &i, &out, "cycle", &rig)?;
                out = bytes_of(&g);
                for (n, m) in coms.iter().enumerate() {
                    let Some(x) = c.reader(*m) else { continue };
                    if read_mode == 0 {
                        loop {
                            match x.read(&mut buf) {
                                Ok(0) => break,
                                Ok(_) => {}
                                Err(e) => fail!("read failed: {e}"),
                            }
                        }
                        unread[n] = 0;
                        continue;
                    }
                    let want = match read_mode {
                        3 => unread[n].saturating_sub(keep),
                        4 if k % 3 > 0 => 0,
                        _ => unread[n],
                    };
                    let part = if read_mode == 2 { 1 } else { 256 };
                    let mut done = 0;
                    while done < want {
                        let b = &mut buf[..part.min(want - done)];
                        match x.read(b) {
                            Ok(k) if k > 0 && k <= b.len() => done += k,
                            k => fail!("reading {} of {want} bytes received by module {m} gave {k:?}", b.len()),
                        }
                    }
                    unread[n] -= want;
                }
                case.obs.eval(1);
            }
            let req = heap::requested() - start_req;
            // steady state after some epochs
            if e == 7 {
                base = heap::live();
                base_req = req;
            }
            if e > 7 {
                let growth = heap::live() - base;
                ensure!(
                    growth <= 4096,
                    "the heap grew by {growth} bytes within {} cycles of the same kind, with all data consumed ({})",
                    (e - 7) * cycles,
                    rig.show()
                );
                ensure!(
                    req <= base_req + base_req / 2 + 4096,
                    "{cycles} cycles request {req} bytes of memory after {} cycles, {base_req} bytes before ({})",
                    e * cycles,
                    rig.show()
                );
            }
        }
    }
    let left = heap::live() - before;
    ensure!(left <= 0, "{left} bytes are left after the coupler was dropped ({})", rig.show());
    case.obs.count("cycles", (epochs * cycles) as u64);
    case.obs.count("bytes requested per steady cycle (sum)", (base_req / cycles as i64) as u64);
    case.obs.case_hash(crate::rng::fnv(rig.show().as_bytes()));
    case.obs.sample(|| format!("{epochs} epochs of {cycles} cycles: {}", rig.show()));
    Ok(())
}

pub fn c27() -> Check {
    Check {
        rule: "a case is one station running the same epoch of cycles, requests, serial writes and reads (all received data is read soon, in one of five ways; the transmit queue runs empty or never) again and again while an accounting allocator watches; distinct by station",
        assumptions: &[
            "at most 4 KiB of slack for buffers which keep their capacity",
            "more than 4 KiB growth over the run is observable only if at least about 3 bytes are kept per cycle",
        ],
        campaigns: vec![
            Campaign::random("stations", "1500 cycles", 400, |c| heap_growth(c, 125)),
            Campaign::random("long", "60000 cycles", 8, |c| heap_growth(c, 5000)),
            Campaign::random("create and drop", "couplers are created, used and dropped 200 times", 200, |c| {
                let r = &mut c.rng;
                let rig = Rig::gen(r, &Opts::default().n(1, 6));
                let i = rig.gen_input(r, &c.cx.lits);
                let o = rig.gen_output(r, &c.cx.lits);
                let mut base = 0;
                for k in 0..200 {
                    let mut cpl = rig.coupler()?;
                    for m in 0..rig.slots.len() {
                        if let Some(w) = cpl.writer(m) {
                            let _ = w.write(&[7; 40]);
                        }
                    }
                    next_ok(&mut cpl, &i, &o, "cycle", &rig)?;
                    drop(cpl);
                    if k == 4 {
                        base = heap::live();
                    }
                    c.obs.eval(1);
                }
                let left = heap::live() - base;
                ensure!(left < 190, "195 couplers left {left} bytes behind ({})", rig.show());
                c.obs.case_hash(crate::rng::fnv(rig.show().as_bytes()));
                Ok(())
            }),
        ],
    }
}
