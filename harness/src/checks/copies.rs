//! C28: values are compared, hashed and copied faithfully.

use crate::{core::*, ensure, fail, rig::*, rng::Rng, spec::*};
use std::{
    collections::{hash_map::DefaultHasher, HashMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    time::Duration,
};
use ur20::{
    ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt, ur20_4ai_rtd_diag as rtd, ur20_4ai_tc_diag as tc,
    ur20_4ai_ui_16_diag as uid, ur20_4ao_ui_16 as ao, ur20_4ao_ui_16_diag as aod, ur20_4ro_co_255 as ro,
    ur20_8ai_i_16_diag_hd as i8hd, ur20_ai_ui_generic as ui, ur20_di_generic as di, ur20_do_generic as dout,
    ur20_fbc_mod_tcp::{Coupler, FromModbusParameterData, ModuleOffset, ProcessModbusTcpData},
    ur20_pf_o_1di_sil as sil, Address, ChannelValue, Error,
};

/// A value is described by its kind and its parts.
fn gen(r: &mut Rng) -> Vec<u64> {
    let kind = r.below(10) as u64;
    let mut d = vec![kind];
    for i in 0..parts(kind) {
        let x = part(r, kind, i);
        d.push(x);
    }
    if matches!(kind, 2 | 3 | 7) {
        let n = if r.chance(1, 8) { r.below(300) } else { r.below(20) };
        d.extend(r.data(n).iter().map(|b| u64::from(*b)));
    }
    d
}

fn parts(kind: u64) -> usize {
    match kind {
        0 | 1 => 1,
        2 => 5,
        3 => 6,
        4 => 3,
        5 => 2,
        6 => 7,
        _ => 0,
    }
}

fn part(r: &mut Rng, kind: u64, i: usize) -> u64 {
    match (kind, i) {
        (1, _) => u64::from(match r.below(6) {
            0 => *r.pick(&[0, 0x8000_0000, 0x7FC0_0000, 0x7F80_0000, 0xFF80_0000, 1, 0x7FFF_FFFF]),
            1 => r.u32(),
            2 => (f32::from(r.u16() as i16) / 10.0).to_bits(),
            _ => {
                let x = r.below(40) as f32 / 4.0;
                r.value(x).to_bits()
            }
        }),
        (2, 2 | 3) | (3, 3 | 4) => {
            if r.chance(1, 20) {
                r.u64()
            } else {
                r.below(4) as u64
            }
        }
        // durations in nanoseconds
        (4, 0) => match r.below(5) {
            0 => 0,
            1 => 1 + r.below(5) as u64,
            2 => 1 + 125 * r.below(0x0800_0000) as u64,
            3 => 1 + 1_000_000_000 * r.below(10) as u64,
            _ => 1 + r.u64() / 2,
        },
        (5, 0) => match r.below(4) {
            0 => r.below(5) as u64,
            1 => 1000 * r.below(8_388_608) as u64,
            2 => 1_000_000_000 * r.below(10) as u64,
            _ => r.u64() / 2,
        },
        (4, 1) => u64::from(r.u32() >> r.below(32)),
        (5, 1) => r.below(3) as u64,
        _ => u64::from(r.bool()),
    }
}

/// Change one part.
fn mutate(r: &mut Rng, d: &[u64]) -> Vec<u64> {
    let mut d = d.to_vec();
    let n = parts(d[0]);
    let bytes = matches!(d[0], 2 | 3 | 7);
    if d.len() == 1 && !bytes || r.chance(1, 20) {
        return gen(r);
    }
    if bytes && (n == 0 || r.chance(1, 3)) {
        let len = d.len() - 1 - n;
        match r.below(4) {
            0 => d.push(0),
            1 if len > 0 => {
                d.pop();
            }
            2 if len > 1 => {
                let (i, j) = (1 + n + r.below(len), 1 + n + r.below(len));
                d.swap(i, j);
            }
            _ if len > 0 => {
                let i = 1 + n + r.below(len);
                d[i] ^= 1 << r.below(8);
            }
            _ => d.push(u64::from(r.u8())),
        }
        return d;
    }
    let i = r.below(n);
    let x = d[1 + i];
    d[1 + i] = match (d[0], i) {
        (1, _) => match r.below(3) {
            0 => (x as u32).wrapping_add(1).into(),
            1 => x ^ 1 << r.below(32),
            _ => u64::from(((f32::from_bits(x as u32)) + 0.001).to_bits()),
        },
        (2, 2 | 3) | (3, 3 | 4) => match r.below(3) {
            0 => (x + 1) % 4,
            1 => x ^ 4,
            _ => x ^ 1 << r.below(64),
        },
        (4 | 5, 0) => match r.below(4) {
            0 => x.saturating_add(1),
            1 => x.saturating_sub(1),
            2 => x.saturating_add(1_000_000_000).min(u64::MAX / 2),
            _ => x ^ 1 << r.below(60),
        },
        (4, 1) => x ^ 1 << r.below(32),
        (5, 1) => (x + 1) % 3,
        _ => x ^ 1,
    };
    d
}

fn bytes(d: &[u64]) -> Vec<u8> {
    d.iter().map(|x| *x as u8).collect()
}

fn build(d: &[u64]) -> ChannelValue {
    let b = |i: usize| d[i] != 0;
    match d[0] {
        0 => ChannelValue::Bit(b(1)),
        1 => ChannelValue::Decimal32(f32::from_bits(d[1] as u32)),
        2 => ChannelValue::ComRsIn(com::ProcessInput {
            data_available: b(1),
            buffer_nearly_full: b(2),
            rx_cnt: d[3] as usize,
            tx_cnt_ack: d[4] as usize,
            ready: b(5),
            data: bytes(&d[6..]),
        }),
        3 => ChannelValue::ComRsOut(com::ProcessOutput {
            rx_buf_flush: b(1),
            tx_buf_flush: b(2),
            disable_tx_hw_buffer: b(3),
            tx_cnt: d[4] as usize,
            rx_cnt_ack: d[5] as usize,
            reset: b(6),
            data: bytes(&d[7..]),
        }),
        4 => ChannelValue::FcntIn(fcnt::ProcessInput {
            duration: d[1].checked_sub(1).map(Duration::from_nanos),
            count: d[2] as u32,
            active: b(3),
        }),
        5 => ChannelValue::FcntOut(fcnt::ProcessOutput {
            duration: Duration::from_nanos(d[1]),
            command: match d[2] {
                0 => None,
                1 => Some(fcnt::Command::Start),
                _ => Some(fcnt::Command::Stop),
            },
        }),
        6 => ChannelValue::SilPFIn(sil::ProcessInput {
            safety_input: b(1),
            autostart: b(2),
            manual_start: b(3),
            safety_input_channel_1: b(4),
            safety_input_channel_2: b(5),
            volt_24_safe_output: b(6),
            volt_24_dc: b(7),
        }),
        7 => ChannelValue::Bytes(bytes(&d[1..])),
        8 => ChannelValue::Disabled,
        _ => ChannelValue::None,
    }
}

/// Is this the described value? Without any help of `PartialEq` of the crate.
fn is(v: &ChannelValue, d: &[u64]) -> bool {
    let got = match v {
        ChannelValue::Bit(b) => vec![0, u64::from(*b)],
        ChannelValue::Decimal32(f) => vec![1, u64::from(f.to_bits())],
        ChannelValue::ComRsIn(i) => {
            let mut g = vec![
                2,
                u64::from(i.data_available),
                u64::from(i.buffer_nearly_full),
                i.rx_cnt as u64,
                i.tx_cnt_ack as u64,
                u64::from(i.ready),
            ];
            g.extend(i.data.iter().map(|b| u64::from(*b)));
            g
        }
        ChannelValue::ComRsOut(o) => {
            let mut g = vec![
                3,
                u64::from(o.rx_buf_flush),
                u64::from(o.tx_buf_flush),
                u64::from(o.disable_tx_hw_buffer),
                o.tx_cnt as u64,
                o.rx_cnt_ack as u64,
                u64::from(o.reset),
            ];
            g.extend(o.data.iter().map(|b| u64::from(*b)));
            g
        }
        ChannelValue::FcntIn(i) => {
            vec![4, i.duration.map_or(0, |d| 1 + d.as_nanos() as u64), u64::from(i.count), u64::from(i.active)]
        }
        ChannelValue::FcntOut(o) => vec![
            5,
            o.duration.as_nanos() as u64,
            match o.command {
                None => 0,
                Some(fcnt::Command::Start) => 1,
                Some(fcnt::Command::Stop) => 2,
            },
        ],
        ChannelValue::SilPFIn(i) => {
            let mut g = vec![6];
            for b in [
                i.safety_input,
                i.autostart,
                i.manual_start,
                i.safety_input_channel_1,
                i.safety_input_channel_2,
                i.volt_24_safe_output,
                i.volt_24_dc,
            ] {
                g.push(u64::from(b));
            }
            g
        }
        ChannelValue::Bytes(b) => {
            let mut g = vec![7];
            g.extend(b.iter().map(|b| u64::from(*b)));
            g
        }
        ChannelValue::Disabled => vec![8],
        ChannelValue::None => vec![9],
        _ => vec![99],
    };
    got == d
}

/// Floats are the only parts whose equality is not that of their bits.
fn equal(a: &[u64], b: &[u64]) -> bool {
    match (a, b) {
        ([1, x], [1, y]) => f32::from_bits(*x as u32) == f32::from_bits(*y as u32),
        _ => a == b,
    }
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// `a == b` has to be `want`, in both directions and also if negated.
#[allow(clippy::nonminimal_bool)]
fn eq<T: PartialEq + Debug>(a: &T, b: &T, want: bool) -> R {
    ensure!(
        (a == b) == want && (b == a) == want && (a != b) != want && (b != a) != want,
        "{a:?} and {b:?} are {} but compared {} / {} (negated {} / {})",
        if want { "equal" } else { "different" },
        a == b,
        b == a,
        a != b,
        b != a
    );
    Ok(())
}

/// The values inside have to behave alike.
fn inner(a: &ChannelValue, b: &ChannelValue, want: bool) -> R {
    match (a, b) {
        (ChannelValue::ComRsIn(x), ChannelValue::ComRsIn(y)) => eq(x, y, want),
        (ChannelValue::ComRsOut(x), ChannelValue::ComRsOut(y)) => eq(x, y, want),
        (ChannelValue::FcntIn(x), ChannelValue::FcntIn(y)) => eq(x, y, want),
        (ChannelValue::FcntOut(x), ChannelValue::FcntOut(y)) => eq(x, y, want),
        (ChannelValue::SilPFIn(x), ChannelValue::SilPFIn(y)) => eq(x, y, want),
        _ => Ok(()),
    }
}

fn inner_copy(a: &ChannelValue) -> ChannelValue {
    match a {
        ChannelValue::ComRsIn(x) => ChannelValue::ComRsIn(x.clone()),
        ChannelValue::ComRsOut(x) => ChannelValue::ComRsOut(x.clone()),
        ChannelValue::FcntIn(x) => x.clone().into(),
        #[allow(clippy::clone_on_copy)]
        ChannelValue::FcntOut(x) => x.clone().into(),
        ChannelValue::SilPFIn(x) => x.clone().into(),
        other => other.clone(),
    }
}

fn values(c: &mut Case) -> R {
    let r = &mut c.rng;
    let d = gen(r);
    let a = build(&d);
    let e = match r.below(3) {
        0 => d.clone(),
        1 => mutate(r, &d),
        _ => gen(r),
    };
    let mut b = build(&e);
    let same = equal(&d, &e);
    eq(&a, &b, same)?;
    inner(&a, &b, same)?;
    for (what, v) in [("clone", a.clone()), ("clone of the content", inner_copy(&a))] {
        ensure!(is(&v, &d), "the {what} of {a:?} is {v:?}");
    }
    b.clone_from(&a);
    ensure!(is(&b, &d), "{:?} after clone_from({a:?}) is {b:?}", build(&e));
    ensure!(is(&a, &d), "a copy changed the original: {a:?}");
    let b = build(&e);
    // in lists, as inputs() and outputs() give them
    let lists = (vec![vec![a.clone()], vec![]], vec![vec![b.clone()], vec![]]);
    eq(&lists.0, &lists.1, same)?;
    c.obs.eval(5);
    c.obs.count(if same { "equal pairs" } else { "different pairs" }, 1);
    c.obs.case_hash(crate::rng::fnv(format!("{d:?}{e:?}").as_bytes()));
    c.obs.sample(|| format!("{a:?} / {b:?}"));
    Ok(())
}

/// Equality and copies of the parameters of two modules of a type.
fn params<M, P, C>(
    kind: Kind,
    p: &[u16],
    q: &[u16],
    head: impl Fn(&M) -> Option<P>,
    chans: impl Fn(&M) -> &[C],
) -> Result<u64, Fail>
where
    M: FromModbusParameterData + ProcessModbusTcpData,
    P: Clone + PartialEq + Debug,
    C: Clone + PartialEq + Debug,
{
    let make = |p: &[u16]| match M::from_modbus_parameter_data(p) {
        Ok(m) => Ok(m),
        Err(e) => fail!("{kind:?}: valid parameters {p:?} were rejected with {e:?}"),
    };
    let (a, b, again) = (make(p)?, make(q)?, make(p)?);
    let n = chans(&a).len();
    ensure!(n == kind.channels() && n == chans(&b).len(), "{kind:?}: {n} channels");
    // the serial module has its own layout, all others have equal blocks
    let len = (p.len() - p.len() % n) / n;
    let (len, at) = if kind == Com { (p.len() - 1, 1) } else { (len, p.len() - len * n) };
    let mut evals = 0;
    if let (Some(x), Some(y), Some(z)) = (head(&a), head(&b), head(&again)) {
        eq(&x, &y, p[..at] == q[..at])?;
        eq(&x, &z, true)?;
        eq(&x.clone(), &z, true)?;
        let mut w = y.clone();
        w.clone_from(&x);
        eq(&w, &z, true)?;
        evals += 4;
    }
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (&chans(&a)[i], &chans(&b)[j]);
            let (rx, ry) = (&p[at + i * len..][..len], &q[at + j * len..][..len]);
            eq(x, y, rx == ry)?;
            evals += 1;
        }
        let (x, z) = (&chans(&a)[i], &chans(&again)[i]);
        eq(x, z, true)?;
        eq(&x.clone(), z, true)?;
        let mut w = chans(&b)[n - 1 - i].clone();
        w.clone_from(x);
        eq(&w, z, true)?;
        evals += 3;
    }
    Ok(evals)
}

fn parameters(c: &mut Case) -> R {
    let r = &mut c.rng;
    let kind = *r.pick(&KINDS);
    let f = kind.fields();
    let p = kind.gen_params(r);
    let mut q = if r.chance(1, 4) { kind.gen_params(r) } else { p.clone() };
    if !q.is_empty() {
        for _ in 0..r.below(3) {
            let i = r.below(q.len());
            q[i] = f[i].gen(r);
        }
    }
    let mut p = p;
    if matches!(kind, Ao | AoDiag) {
        // whether a substitute value has an effect depends on the range
        let any: Vec<usize> = (0..f.len()).filter(|i| f[*i] == Dom::Any).collect();
        for i in &any {
            p[*i] = p[any[0]];
            q[*i] = p[any[0]];
        }
    }
    let evals = match kind {
        Di4 => params::<di::Mod<di::UR20_4DI_P>, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Di8 => params::<di::Mod<di::UR20_8DI_P_2W>, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Do4 => params::<dout::Mod<dout::UR20_4DO_P>, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Do4a => params::<dout::Mod<dout::UR20_4DO_P_2A>, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Do8 => params::<dout::Mod<dout::UR20_8DO_P>, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Ro4 => params::<ro::Mod, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Ui12 => params::<ui::Mod<ui::UR20_4AI_UI_12>, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        Ui16 => params::<ui::Mod<ui::UR20_4AI_UI_16>, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        UiDiag => params::<uid::Mod, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        I8 => params::<i8hd::Mod, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        Rtd => params::<rtd::Mod, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        Tc => params::<tc::Mod, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        Ao => params::<ao::Mod, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        AoDiag => params::<aod::Mod, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?,
        Fcnt => {
            let n = params::<fcnt::Mod, (), _>(kind, &p, &q, |_| None, |m| &m.ch_params)?;
            let m = match fcnt::Mod::from_modbus_parameter_data(&p) {
                Ok(m) => m,
                Err(e) => fail!("{p:?} was rejected with {e:?}"),
            };
            eq(&m.clone().ch_params, &m.ch_params, true)?;
            n + 1
        }
        Com => params::<com::Mod, _, _>(kind, &p, &q, |m| Some(m.mod_params.clone()), |m| &m.ch_params)?,
        Do16 | Sil => 0,
    };
    c.obs.eval(evals);
    if evals > 0 {
        c.obs.count("parameter sets compared", evals);
        c.obs.case_hash(crate::rng::fnv(&bytes_of(&[&p[..], &q[..], &[kind as u16]].concat())));
    }
    Ok(())
}

fn keys(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = |r: &mut Rng| match r.below(4) {
        0 => r.below(4),
        1 => r.below(70),
        2 => r.u64() as usize,
        _ => 1 << r.below(64),
    };
    let mut all: Vec<(usize, usize)> = vec![];
    let mut map: HashMap<Address, usize> = HashMap::new();
    let mut model: HashMap<(usize, usize), usize> = HashMap::new();
    for i in 0..r.range(2, 40) {
        let k = match r.below(4) {
            0 if !all.is_empty() => *r.pick(&all),
            1 if !all.is_empty() => {
                let (m, c) = *r.pick(&all);
                *r.pick(&[(c, m), (m, c ^ 1), (m ^ 1, c), (m.wrapping_add(1), c.wrapping_sub(1)), (m, c ^ 256)])
            }
            _ => (n(r), n(r)),
        };
        all.push(k);
        let a = Address { module: k.0, channel: k.1 };
        #[allow(clippy::clone_on_copy)]
        let b = a.clone();
        ensure!((b.module, b.channel) == k, "the clone of {a:?} is {b:?}");
        for x in &all {
            let b = Address { module: x.0, channel: x.1 };
            eq(&a, &b, *x == k)?;
            ensure!(*x != k || hash(&a) == hash(&b), "the hashes of {a:?} and {b:?} differ");
        }
        if r.chance(1, 4) {
            ensure!(map.remove(&a) == model.remove(&k), "removing {a:?} from a map");
        } else {
            ensure!(map.insert(a, i) == model.insert(k, i), "inserting {a:?} into a map");
        }
        ensure!(map.len() == model.len(), "the map has {} entries instead of {}", map.len(), model.len());
    }
    for k in &all {
        let a = Address { module: k.0, channel: k.1 };
        ensure!(map.get(&a) == model.get(k), "{a:?} is {:?} in a map, expected {:?}", map.get(&a), model.get(k));
    }
    // offsets
    let word = |r: &mut Rng| r.chance(3, 4).then(|| *r.pick(&[0, 1, 8, 0x8000, 0x8008, 0xFFFE]));
    for _ in 0..8 {
        let (i, o, k, p) = (word(r), word(r), word(r), word(r));
        let (k, p) = if r.bool() { (i, p) } else { (k, o) };
        let a = ModuleOffset { input: i, output: o };
        let b = ModuleOffset { input: k, output: p };
        eq(&a, &b, i == k && o == p)?;
        let d = a.clone();
        ensure!(d.input == i && d.output == o, "the clone of {a:?} is {d:?}");
    }
    c.obs.eval(all.len() as u64);
    c.obs.case_hash(crate::rng::fnv(format!("{all:?}").as_bytes()));
    Ok(())
}

/// All types, categories and errors against each other.
fn kinds(c: &mut Case) -> R {
    let types = super::ident::types();
    let mut set = HashSet::new();
    let mut cats = HashSet::new();
    for (i, a) in types.iter().enumerate() {
        for (j, b) in types.iter().enumerate() {
            eq(&a.0, &b.0, i == j)?;
            eq(&a.3, &b.3, format!("{:?}", a.3) == format!("{:?}", b.3))?;
            ensure!(a.3 != b.3 || hash(&a.3) == hash(&b.3), "the hashes of {:?} differ", a.3);
        }
        let x = a.0.clone();
        eq(&x, &a.0, true)?;
        ensure!(format!("{x:?}") == a.1, "the clone of {} is {x:?}", a.1);
        let y = a.3.clone();
        eq(&y, &a.3, true)?;
        ensure!(hash(&x) == hash(&a.0), "the hashes of {x:?} and its clone differ");
        ensure!(set.insert(x.clone()) && !set.insert(x), "{} in a set", a.1);
        cats.insert(y);
        c.obs.distinct(1);
        c.obs.eval(types.len() as u64);
    }
    ensure!(set.len() == types.len(), "{} of {} types are in the set", set.len(), types.len());
    let names: HashSet<String> = types.iter().map(|t| format!("{:?}", t.3)).collect();
    ensure!(cats.len() == names.len(), "{} of {} categories are in the set", cats.len(), names.len());
    let errors = || {
        let mut v = vec![
            Error::UnknownModule,
            Error::UnknownCategory,
            Error::BufferLength,
            Error::SequenceNumber,
            Error::DataLength,
            Error::RegisterCount,
            Error::ChannelParameter,
            Error::ChannelValue,
            Error::ModuleOffset,
            Error::Address,
        ];
        for t in ["", " ", "a", "A", "ab", "broken pipe", "broken pipe "] {
            v.push(Error::Io(t.into()));
        }
        v
    };
    for (i, a) in errors().iter().enumerate() {
        for (j, b) in errors().iter().enumerate() {
            eq(a, b, i == j)?;
            eq(&Err::<(), _>(a), &Err(b), i == j)?;
            c.obs.eval(1);
        }
        c.obs.distinct(1);
    }
    Ok(())
}

/// A copied configuration is as good as the original.
fn configurations(c: &mut Case) -> R {
    let lits = &c.cx.lits;
    let r = &mut c.rng;
    let rig = Rig::gen(r, &Opts::default());
    let cfg = rig.config();
    let copy = cfg.clone();
    let mut other = Rig::gen(r, &Opts::default()).config();
    other.clone_from(&cfg);
    for k in [&copy, &other] {
        ensure!(
            k.modules.len() == cfg.modules.len()
                && k.modules.iter().zip(&rig.slots).all(|(m, s)| Kind::of(m) == Some(s.kind))
                && k.offsets == cfg.offsets
                && k.params == cfg.params,
            "the clone of {cfg:?} is {k:?}"
        );
    }
    let mut a = rig.coupler()?;
    let mut b = match Coupler::new(&copy) {
        Ok(b) => b,
        Err(e) => fail!("the clone of a valid configuration was rejected with {e:?}: {}", rig.show()),
    };
    for i in 0..3 {
        let (x, y) = (words_of(&rig.gen_input(r, lits)), words_of(&rig.gen_output(r, lits)));
        let (p, q) = (a.next(&x, &y), b.next(&x, &y));
        ensure!(p == q, "cycle {i}: {p:x?} but {q:x?} with the cloned configuration ({})", rig.show());
        // what was copied from the coupler stays as it was
        let (old, now) = (a.inputs().clone(), b.inputs());
        let text = format!("{now:?}");
        ensure!(format!("{old:?}") == text, "cycle {i}: the copied inputs {old:?} differ from {text}");
        let (x, y) = (words_of(&rig.gen_input(r, lits)), words_of(&rig.gen_output(r, lits)));
        let _ = a.next(&x, &y);
        let _ = b.next(&x, &y);
        ensure!(format!("{old:?}") == text, "cycle {i}: the copied inputs changed later");
    }
    c.obs.eval(6);
    c.obs.case_hash(crate::rng::fnv(format!("{cfg:?}").as_bytes()));
    Ok(())
}

pub fn c28() -> Check {
    Check {
        rule: "a case is one pair of values, parameter vectors or configurations, or one list of addresses",
        assumptions: &["the substitute value of an analog output is left out of the comparison of parameters"],
        campaigns: vec![
            Campaign::all("kinds", "all module types, categories and errors against each other", 1, kinds),
            Campaign::random("values", "pairs of channel values: equal, different in one part, unrelated", 900_000, values),
            Campaign::random("parameters", "pairs of valid parameter vectors of every module type", 150_000, parameters),
            Campaign::random("keys", "lists of addresses as keys of maps, pairs of offsets", 60_000, keys),
            Campaign::random("configurations", "copied configurations of random stations", 10_000, configurations),
        ],
    }
}
