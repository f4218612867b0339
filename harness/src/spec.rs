//! The specification: an executable model of the u-remote modules, written
//! independently of the code under test (tables of the vendor's manual as
//! documented by the crate).

use crate::rng::Rng;
use std::time::Duration;
use ur20::{
    ur20_1com_232_485_422 as com, ur20_2fcnt_100 as fcnt,
    ur20_fbc_mod_tcp::{FromModbusParameterData, ProcessModbusTcpData},
    ur20_pf_o_1di_sil as sil, ChannelValue, Error, ModuleType,
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Di4,
    Di8,
    Do4,
    Do4a,
    Do8,
    Do16,
    Ro4,
    Ui12,
    Ui16,
    UiDiag,
    I8,
    Rtd,
    Tc,
    Ao,
    AoDiag,
    Fcnt,
    Com,
    Sil,
}
pub use Kind::*;

pub const KINDS: [Kind; 18] = [
    Di4, Di8, Do4, Do4a, Do8, Do16, Ro4, Ui12, Ui16, UiDiag, I8, Rtd, Tc, Ao, AoDiag, Fcnt, Com,
    Sil,
];

/// Domain of one parameter register.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dom {
    /// 0..=max
    Max(u16),
    Any,
}

impl Dom {
    pub fn ok(self, w: u16) -> bool {
        match self {
            Dom::Max(m) => w <= m,
            Dom::Any => true,
        }
    }
    pub fn gen(self, r: &mut Rng) -> u16 {
        match self {
            Dom::Max(m) => r.below(m as usize + 1) as u16,
            Dom::Any => r.word(&[]),
        }
    }
}

impl Kind {
    pub fn ty(self) -> ModuleType {
        match self {
            Di4 => ModuleType::UR20_4DI_P,
            Di8 => ModuleType::UR20_8DI_P_2W,
            Do4 => ModuleType::UR20_4DO_P,
            Do4a => ModuleType::UR20_4DO_P_2A,
            Do8 => ModuleType::UR20_8DO_P,
            Do16 => ModuleType::UR20_16DO_P,
            Ro4 => ModuleType::UR20_4RO_CO_255,
            Ui12 => ModuleType::UR20_4AI_UI_12,
            Ui16 => ModuleType::UR20_4AI_UI_16,
            UiDiag => ModuleType::UR20_4AI_UI_16_DIAG,
            I8 => ModuleType::UR20_8AI_I_16_DIAG_HD,
            Rtd => ModuleType::UR20_4AI_RTD_DIAG,
            Tc => ModuleType::UR20_4AI_TC_DIAG,
            Ao => ModuleType::UR20_4AO_UI_16,
            AoDiag => ModuleType::UR20_4AO_UI_16_DIAG,
            Fcnt => ModuleType::UR20_2FCNT_100,
            Com => ModuleType::UR20_1COM_232_485_422,
            Sil => ModuleType::UR20_PF_O_1DI_SIL,
        }
    }
    pub fn of(t: &ModuleType) -> Option<Kind> {
        KINDS.iter().copied().find(|k| k.ty() == *t)
    }
    pub fn channels(self) -> usize {
        match self {
            Com | Sil => 1,
            Fcnt => 2,
            Di8 | Do8 | I8 => 8,
            Do16 => 16,
            _ => 4,
        }
    }
    /// Domains of the parameter registers, in register order.
    pub fn fields(self) -> Vec<Dom> {
        use Dom::*;
        let rep = |head: &[Dom], n: usize, ch: &[Dom]| {
            let mut v = head.to_vec();
            for _ in 0..n {
                v.extend_from_slice(ch);
            }
            v
        };
        match self {
            Di4 => rep(&[], 4, &[Max(5)]),
            Di8 => rep(&[], 8, &[Max(5)]),
            Do4 | Do4a | Ro4 => rep(&[], 4, &[Max(1)]),
            Do8 => rep(&[], 8, &[Max(1)]),
            Do16 | Sil => vec![],
            Ui12 | Ui16 => rep(&[Max(3)], 4, &[Max(1), Max(8)]),
            UiDiag => rep(&[Max(3)], 4, &[Max(1), Max(1), Max(1), Max(1), Max(8)]),
            I8 => rep(&[Max(3)], 8, &[Max(1), Max(1), Max(1), Max(2)]),
            Rtd => rep(
                &[Max(2)],
                4,
                &[Max(18), Max(2), Max(5), Max(1), Max(1), Any, Any],
            ),
            Tc => rep(
                &[Max(2)],
                4,
                &[Max(19), Max(4), Max(5), Max(1), Max(1), Any, Any],
            ),
            Ao => rep(&[], 4, &[Max(1), Max(8), Any]),
            AoDiag => rep(&[], 4, &[Max(1), Max(8), Any, Max(1)]),
            Fcnt => rep(&[], 2, &[Max(16)]),
            Com => vec![
                Max(1),
                Max(3),
                Max(11),
                Max(1),
                Max(2),
                Max(2),
                Max(1),
                Max(1),
                Max(255),
                Max(255),
            ],
        }
    }
    pub fn in_bytes(self, params: &[u16]) -> usize {
        match self {
            Di4 | Di8 => 1,
            Ui12 | Ui16 | UiDiag | Rtd | Tc => 8,
            I8 => 16,
            Fcnt => 20,
            Com => com_len(params),
            Sil => 4,
            _ => 0,
        }
    }
    pub fn out_bytes(self, params: &[u16]) -> usize {
        match self {
            Do4 | Do4a | Do8 | Ro4 => 1,
            Do16 => 2,
            Ao | AoDiag => 8,
            Fcnt => 12,
            Com => com_len(params),
            _ => 0,
        }
    }
    pub fn has_in(self) -> bool {
        self.in_bytes(&[0]) > 0
    }
    pub fn has_out(self) -> bool {
        self.out_bytes(&[0]) > 0
    }
    /// Position of the range register of a channel.
    pub fn range_pos(self, ch: usize) -> Option<usize> {
        Some(match self {
            Ui12 | Ui16 => 1 + ch * 2 + 1,
            UiDiag => 1 + ch * 5 + 4,
            I8 => 1 + ch * 4 + 3,
            Rtd | Tc => 1 + ch * 7,
            Ao => ch * 3 + 1,
            AoDiag => ch * 4 + 1,
            _ => return None,
        })
    }
    pub fn format_pos(self, ch: usize) -> Option<usize> {
        Some(match self {
            Ui12 | Ui16 => 1 + ch * 2,
            UiDiag => 1 + ch * 5 + 3,
            I8 => 1 + ch * 4 + 2,
            Ao => ch * 3,
            AoDiag => ch * 4,
            _ => return None,
        })
    }
    pub fn gen_params(self, r: &mut Rng) -> Vec<u16> {
        let f = self.fields();
        let mut p: Vec<u16> = f.iter().map(|d| d.gen(r)).collect();
        // often some channels have (nearly) the same settings
        let (len, ch) = (f.len() / self.channels(), self.channels());
        if len > 0 && ch > 1 && r.chance(1, 3) {
            let head = f.len() - len * ch;
            let from = head + r.below(ch) * len;
            let all = r.bool();
            for to in (0..ch).map(|c| head + c * len) {
                if all || r.bool() {
                    p.copy_within(from..from + len, to);
                    if r.chance(1, 4) {
                        let i = to + r.below(len);
                        p[i] = f[i].gen(r);
                    }
                }
            }
        }
        p
    }
    /// Instantiate the module of the code under test through its public type.
    pub fn build(self, p: &[u16]) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
        use ur20::*;
        fn b<M: FromModbusParameterData + ProcessModbusTcpData + 'static>(
            p: &[u16],
        ) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
            M::from_modbus_parameter_data(p).map(|m| Box::new(m) as Box<dyn ProcessModbusTcpData>)
        }
        match self {
            Di4 => b::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(p),
            Di8 => b::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(p),
            Do4 => b::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(p),
            Do4a => b::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(p),
            Do8 => b::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(p),
            Do16 => b::<ur20_16do_p::Mod>(p),
            Ro4 => b::<ur20_4ro_co_255::Mod>(p),
            Ui12 => b::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(p),
            Ui16 => b::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(p),
            UiDiag => b::<ur20_4ai_ui_16_diag::Mod>(p),
            I8 => b::<ur20_8ai_i_16_diag_hd::Mod>(p),
            Rtd => b::<ur20_4ai_rtd_diag::Mod>(p),
            Tc => b::<ur20_4ai_tc_diag::Mod>(p),
            Ao => b::<ur20_4ao_ui_16::Mod>(p),
            AoDiag => b::<ur20_4ao_ui_16_diag::Mod>(p),
            Fcnt => b::<ur20_2fcnt_100::Mod>(p),
            Com => b::<ur20_1com_232_485_422::Mod>(p),
            Sil => b::<ur20_pf_o_1di_sil::Mod>(p),
        }
    }
    /// A freshly default constructed module.
    pub fn default_mod(self) -> Box<dyn ProcessModbusTcpData> {
        use ur20::*;
        match self {
            Di4 => Box::new(ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>::default()),
            Di8 => Box::new(ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>::default()),
            Do4 => Box::new(ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>::default()),
            Do4a => Box::new(ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>::default()),
            Do8 => Box::new(ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>::default()),
            Do16 => Box::new(ur20_16do_p::Mod),
            Ro4 => Box::new(ur20_4ro_co_255::Mod::default()),
            Ui12 => Box::new(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>::default()),
            Ui16 => Box::new(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>::default()),
            UiDiag => Box::new(ur20_4ai_ui_16_diag::Mod::default()),
            I8 => Box::new(ur20_8ai_i_16_diag_hd::Mod::default()),
            Rtd => Box::new(ur20_4ai_rtd_diag::Mod::default()),
            Tc => Box::new(ur20_4ai_tc_diag::Mod::default()),
            Ao => Box::new(ur20_4ao_ui_16::Mod::default()),
            AoDiag => Box::new(ur20_4ao_ui_16_diag::Mod::default()),
            Fcnt => Box::new(ur20_2fcnt_100::Mod::default()),
            Com => Box::new(ur20_1com_232_485_422::Mod::default()),
            Sil => Box::new(ur20_pf_o_1di_sil::Mod),
        }
    }
}

pub fn com_len(params: &[u16]) -> usize {
    if params.first() == Some(&1) {
        16
    } else {
        8
    }
}

/// An expected channel value.
#[derive(Clone, Debug)]
pub enum Val {
    Is(ChannelValue),
    /// value, absolute tolerance
    Dec(f64, f64),
}

impl Val {
    pub fn matches(&self, v: &ChannelValue) -> bool {
        match (self, v) {
            (Val::Is(a), b) => a == b,
            (Val::Dec(w, t), ChannelValue::Decimal32(g)) => (f64::from(*g) - w).abs() <= *t,
            _ => false,
        }
    }
}

pub fn matches_all(want: &[Val], got: &[ChannelValue]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w.matches(g))
}

pub const S5: f64 = 16384.0;
pub const S7: f64 = 27648.0;

pub fn factor(format: u16) -> f64 {
    if format == 0 {
        S5
    } else {
        S7
    }
}

/// (offset, span) of the analog voltage / current ranges; None: disabled
pub fn ui_range(range: u16) -> Option<(f64, f64)> {
    Some(match range {
        0 => (0.0, 20.0),
        1 => (4.0, 16.0),
        2 | 3 => (0.0, 10.0),
        4 | 5 => (0.0, 5.0),
        6 => (1.0, 4.0),
        7 => (2.0, 8.0),
        _ => return None,
    })
}

/// current only ranges
pub fn i_range(range: u16) -> Option<(f64, f64)> {
    if range < 2 {
        ui_range(range)
    } else {
        None
    }
}

/// How precise a decoded analog value has to be, in units of the least
/// significant bit.
pub const LSB_TOL: f64 = 0.02;

fn linear(w: u16, range: Option<(f64, f64)>, format: u16) -> Val {
    match range {
        None => Val::Is(ChannelValue::Disabled),
        Some((off, span)) => {
            let lsb = span / factor(format);
            Val::Dec(f64::from(w as i16) * lsb + off, lsb * LSB_TOL)
        }
    }
}

fn rtd(w: u16, range: u16) -> Val {
    match range {
        0..=9 => Val::Dec(f64::from(w as i16) / 10.0, 0.1 * LSB_TOL),
        10..=17 => {
            let n = [40.0, 80.0, 150.0, 300.0, 500.0, 1000.0, 2000.0, 4000.0][range as usize - 10];
            let lsb = n / S7;
            Val::Dec(f64::from(w) * lsb, lsb * LSB_TOL)
        }
        _ => Val::Is(ChannelValue::Disabled),
    }
}

fn tc(w: u16, range: u16) -> Val {
    match range {
        0..=10 => {
            if w == 0x7FFF {
                Val::Is(ChannelValue::None)
            } else {
                Val::Dec(f64::from(w as i16) / 10.0, 0.1 * LSB_TOL)
            }
        }
        11..=18 => {
            let fs = [
                0.015625, 0.03125, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0,
            ][range as usize - 11];
            let lsb = fs / 32767.0;
            Val::Dec(f64::from(w as i16) * lsb, lsb * LSB_TOL)
        }
        _ => Val::Is(ChannelValue::Disabled),
    }
}

pub fn words_of(bytes: &[u8]) -> Vec<u16> {
    bytes
        .chunks(2)
        .map(|c| u16::from(c[0]) | (u16::from(*c.get(1).unwrap_or(&0)) << 8))
        .collect()
}

pub fn bytes_of(words: &[u16]) -> Vec<u8> {
    words.iter().flat_map(|w| [*w as u8, (*w >> 8) as u8]).collect()
}

pub fn com_in(b: &[u8]) -> Option<com::ProcessInput> {
    let s = *b.first()?;
    let n = *b.get(1)? as usize;
    if b.len() < n + 2 {
        return None;
    }
    Some(com::ProcessInput {
        data_available: s & 1 != 0,
        buffer_nearly_full: s & 2 != 0,
        rx_cnt: (s as usize >> 3) & 3,
        tx_cnt_ack: (s as usize >> 5) & 3,
        ready: s & 0x80 != 0,
        data: b[2..2 + n].to_vec(),
    })
}

pub fn com_out(b: &[u8]) -> Option<com::ProcessOutput> {
    let s = *b.first()?;
    let n = *b.get(1)? as usize;
    if b.len() < n + 2 {
        return None;
    }
    Some(com::ProcessOutput {
        rx_buf_flush: s & 1 != 0,
        tx_buf_flush: s & 2 != 0,
        disable_tx_hw_buffer: s & 4 != 0,
        tx_cnt: (s as usize >> 3) & 3,
        rx_cnt_ack: (s as usize >> 5) & 3,
        reset: s & 0x80 != 0,
        data: b[2..2 + n].to_vec(),
    })
}

pub fn com_in_bytes(p: &com::ProcessInput, len: usize) -> Vec<u8> {
    let mut b = vec![0; len];
    b[0] = u8::from(p.data_available)
        | u8::from(p.buffer_nearly_full) << 1
        | (p.rx_cnt as u8) << 3
        | (p.tx_cnt_ack as u8) << 5
        | u8::from(p.ready) << 7;
    b[1] = p.data.len() as u8;
    b[2..2 + p.data.len()].copy_from_slice(&p.data);
    b
}

pub fn com_out_bytes(p: &com::ProcessOutput, len: usize) -> Vec<u8> {
    let mut b = vec![0; len];
    b[0] = u8::from(p.rx_buf_flush)
        | u8::from(p.tx_buf_flush) << 1
        | u8::from(p.disable_tx_hw_buffer) << 2
        | (p.tx_cnt as u8) << 3
        | (p.rx_cnt_ack as u8) << 5
        | u8::from(p.reset) << 7;
    b[1] = p.data.len() as u8;
    b[2..2 + p.data.len()].copy_from_slice(&p.data);
    b
}

/// The bits of a byte image.
fn bits(b: &[u8], n: usize) -> Vec<Val> {
    (0..n)
        .map(|i| Val::Is(ChannelValue::Bit(b[i / 8] >> (i % 8) & 1 == 1)))
        .collect()
}

pub const FCNT_OVERRUN: u32 = 0x07FF_FFFF;
pub const FCNT_MAX_MICROS: u32 = 8_388_607;

/// Expected channel values for the input bytes of a module.
/// `None`: not decodable.
pub fn decode_in(k: Kind, p: &[u16], b: &[u8]) -> Option<Vec<Val>> {
    let w = words_of(b);
    let ch = |f: &dyn Fn(usize) -> Val| (0..k.channels()).map(f).collect::<Vec<_>>();
    Some(match k {
        Di4 | Di8 => bits(b, k.channels()),
        Ui12 | Ui16 | UiDiag => ch(&|i| {
            linear(
                w[i],
                ui_range(p[k.range_pos(i).unwrap()]),
                p[k.format_pos(i).unwrap()],
            )
        }),
        I8 => ch(&|i| {
            linear(
                w[i],
                i_range(p[k.range_pos(i).unwrap()]),
                p[k.format_pos(i).unwrap()],
            )
        }),
        Rtd => ch(&|i| rtd(w[i], p[k.range_pos(i).unwrap()])),
        Tc => ch(&|i| tc(w[i], p[k.range_pos(i).unwrap()])),
        Fcnt => ch(&|i| {
            let d = u32::from(w[4 * i]) << 16 | u32::from(w[4 * i + 1]);
            let count = u32::from(w[4 * i + 2]) << 16 | u32::from(w[4 * i + 3]);
            Val::Is(ChannelValue::FcntIn(fcnt::ProcessInput {
                duration: (d < FCNT_OVERRUN).then(|| Duration::from_nanos(u64::from(d) * 125)),
                count,
                active: w[8 + i] & 0x100 != 0,
            }))
        }),
        Com => vec![Val::Is(ChannelValue::ComRsIn(com_in(b)?))],
        Sil => vec![Val::Is(ChannelValue::SilPFIn(sil::ProcessInput {
            safety_input: b[0] & 0x01 != 0,
            autostart: b[0] & 0x04 != 0,
            manual_start: b[0] & 0x08 != 0,
            safety_input_channel_1: b[0] & 0x10 != 0,
            safety_input_channel_2: b[0] & 0x20 != 0,
            volt_24_safe_output: b[1] & 0x01 != 0,
            volt_24_dc: b[1] & 0x04 != 0,
        }))],
        _ => ch(&|_| Val::Is(ChannelValue::None)),
    })
}

/// Expected channel values for the output bytes of a module.
pub fn decode_out(k: Kind, p: &[u16], b: &[u8]) -> Option<Vec<Val>> {
    let w = words_of(b);
    let ch = |f: &dyn Fn(usize) -> Val| (0..k.channels()).map(f).collect::<Vec<_>>();
    Some(match k {
        Do4 | Do4a | Do8 | Ro4 | Do16 => bits(b, k.channels()),
        Ao | AoDiag => ch(&|i| {
            linear(
                w[i],
                ui_range(p[k.range_pos(i).unwrap()]),
                p[k.format_pos(i).unwrap()],
            )
        }),
        Fcnt => ch(&|i| {
            let d = u32::from(w[2 * i]) << 16 | u32::from(w[2 * i + 1]);
            let c = w[4 + i];
            Val::Is(ChannelValue::FcntOut(fcnt::ProcessOutput {
                duration: Duration::from_micros(u64::from(d)),
                command: if c & 0x100 != 0 {
                    Some(fcnt::Command::Start)
                } else if c & 0x200 != 0 {
                    Some(fcnt::Command::Stop)
                } else {
                    None
                },
            }))
        }),
        Com => vec![Val::Is(ChannelValue::ComRsOut(com_out(b)?))],
        _ => ch(&|_| Val::Is(ChannelValue::None)),
    })
}

/// Analog encoding. Returns the two candidates next to the exact step (the
/// second equals the first unless the value is at a tie).
pub fn encode_analog(v: f64, range: u16, format: u16) -> (u16, u16) {
    let Some((off, span)) = ui_range(range) else {
        return (0, 0);
    };
    let x = factor(format) * (v - off) / span;
    let r = |x: f64| (x.clamp(-32768.0, 32767.0) as i32) as i16 as u16;
    // relative f32 error of the input and of the computation
    let tol = LSB_TOL;
    (r((x - tol).round()), r((x + tol).round()))
}

/// Expected output bytes of a single channel request, applied to `b`.
/// `None`: the request is not encodable.
pub fn apply(k: Kind, p: &[u16], b: &mut [u8], ch: usize, v: &ChannelValue) -> Option<()> {
    let put = |b: &mut [u8], i: usize, w: u16| {
        b[2 * i] = w as u8;
        b[2 * i + 1] = (w >> 8) as u8;
    };
    match k {
        Do4 | Do4a | Do8 | Ro4 | Do16 => {
            let on = match v {
                ChannelValue::Bit(x) => *x,
                ChannelValue::Disabled => false,
                _ => return None,
            };
            let m = 1u8 << (ch % 8);
            if on {
                b[ch / 8] |= m;
            } else {
                b[ch / 8] &= !m;
            }
        }
        Ao | AoDiag => match v {
            ChannelValue::Decimal32(x) => {
                let (a, _) = encode_analog(
                    f64::from(*x),
                    p[k.range_pos(ch).unwrap()],
                    p[k.format_pos(ch).unwrap()],
                );
                put(b, ch, a);
            }
            ChannelValue::Disabled => put(b, ch, 0),
            _ => return None,
        },
        Fcnt => match v {
            ChannelValue::FcntOut(o) => {
                if o.duration > Duration::from_micros(u64::from(FCNT_MAX_MICROS)) {
                    return None;
                }
                let us = o.duration.as_micros() as u32;
                put(b, 2 * ch, (us >> 16) as u16);
                put(b, 2 * ch + 1, us as u16);
                put(
                    b,
                    4 + ch,
                    match o.command {
                        Some(fcnt::Command::Start) => 0x100,
                        Some(fcnt::Command::Stop) => 0x200,
                        None => 0,
                    },
                );
            }
            ChannelValue::Disabled => {
                put(b, 2 * ch, 0);
                put(b, 2 * ch + 1, 0);
                put(b, 4 + ch, 0);
            }
            _ => return None,
        },
        _ => return None,
    }
    Some(())
}

/// Canonical output bytes: what the coupler would write itself.
pub fn gen_out(k: Kind, p: &[u16], r: &mut Rng, lits: &[u64]) -> Vec<u8> {
    let n = k.out_bytes(p);
    match k {
        Do4 | Do4a | Ro4 => vec![r.u8() & 0x0F],
        Do8 => vec![r.u8()],
        Do16 => r.bytes(2),
        Ao | AoDiag => {
            let w: Vec<u16> = (0..4)
                .map(|i| {
                    if ui_range(p[k.range_pos(i).unwrap()]).is_some() {
                        r.word(lits)
                    } else {
                        0
                    }
                })
                .collect();
            bytes_of(&w)
        }
        Fcnt => {
            let mut w = vec![0u16; 6];
            for ch in 0..2 {
                let us = gen_micros(r, lits);
                w[2 * ch] = (us >> 16) as u16;
                w[2 * ch + 1] = us as u16;
                w[4 + ch] = *r.pick(&[0, 0x100, 0x200]);
            }
            bytes_of(&w)
        }
        Com => {
            let len = r.range(0, n - 2);
            com_out_bytes(
                &com::ProcessOutput {
                    rx_buf_flush: r.chance(1, 8),
                    tx_buf_flush: r.chance(1, 8),
                    disable_tx_hw_buffer: r.chance(1, 4),
                    tx_cnt: r.below(4),
                    rx_cnt_ack: r.below(4),
                    reset: r.chance(1, 4),
                    data: r.data(len),
                },
                n,
            )
        }
        _ => vec![],
    }
}

pub fn gen_micros(r: &mut Rng, lits: &[u64]) -> u32 {
    let x = new_micros(r, lits);
    // all durations are exact as floats
    (r.value(x as f32) as u32).min(FCNT_MAX_MICROS)
}

fn new_micros(r: &mut Rng, lits: &[u64]) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => FCNT_MAX_MICROS - r.below(3) as u32,
        2 => r.below(0x1_0002) as u32,
        3 if !lits.is_empty() => (*r.pick(lits) as u32).min(FCNT_MAX_MICROS),
        4 => r.below(1000) as u32 * 1000,
        _ => r.below(FCNT_MAX_MICROS as usize + 1) as u32,
    }
}

/// Decodable input bytes.
pub fn gen_in(k: Kind, p: &[u16], r: &mut Rng, lits: &[u64]) -> Vec<u8> {
    let n = k.in_bytes(p);
    match k {
        Com => {
            let len = r.range(0, n - 2);
            com_in_bytes(
                &com::ProcessInput {
                    data_available: r.chance(2, 3),
                    buffer_nearly_full: r.chance(1, 4),
                    rx_cnt: r.below(4),
                    tx_cnt_ack: r.below(4),
                    ready: r.bool(),
                    data: r.data(len),
                },
                n,
            )
        }
        _ => {
            let w: Vec<u16> = (0..n.div_ceil(2)).map(|_| r.word(lits)).collect();
            let mut b = bytes_of(&w);
            b.truncate(n);
            b
        }
    }
}

/// A well typed request for a channel; analog values stay away from ties.
pub fn gen_req(k: Kind, p: &[u16], ch: usize, r: &mut Rng, lits: &[u64]) -> ChannelValue {
    if k != Com && k.has_out() && r.chance(1, 12) {
        return ChannelValue::Disabled;
    }
    match k {
        Do4 | Do4a | Do8 | Ro4 | Do16 => ChannelValue::Bit(r.bool()),
        Ao | AoDiag => {
            let (range, format) = (p[k.range_pos(ch).unwrap()], p[k.format_pos(ch).unwrap()]);
            let (off, span) = ui_range(range).unwrap_or((0.0, 10.0));
            loop {
                let v = match r.below(5) {
                    // a step
                    0 => f64::from(r.word(lits) as i16) * span / factor(format) + off,
                    // a round number
                    1 => r.below(201) as f64 / 10.0 - 5.0,
                    // within the range
                    2 | 3 => off + span * (r.u32() as f64 / f64::from(u32::MAX)),
                    // saturating
                    _ => (r.u32() as f64 / f64::from(u32::MAX) - 0.5) * 200.0,
                } as f32;
                let v = r.value(v);
                let (a, b) = encode_analog(f64::from(v), range, format);
                if a == b && v.is_finite() {
                    return ChannelValue::Decimal32(v);
                }
            }
        }
        Fcnt => ChannelValue::FcntOut(fcnt::ProcessOutput {
            duration: Duration::from_micros(u64::from(gen_micros(r, lits))),
            command: match r.below(3) {
                0 => None,
                1 => Some(fcnt::Command::Start),
                _ => Some(fcnt::Command::Stop),
            },
        }),
        _ => ChannelValue::Bit(r.bool()),
    }
}

/// Is this value accepted for an output channel of the module?
pub fn well_typed(k: Kind, v: &ChannelValue) -> bool {
    match k {
        Do4 | Do4a | Do8 | Ro4 | Do16 => {
            matches!(v, ChannelValue::Bit(_) | ChannelValue::Disabled)
        }
        Ao | AoDiag => matches!(v, ChannelValue::Decimal32(_) | ChannelValue::Disabled),
        Fcnt => match v {
            ChannelValue::FcntOut(o) => {
                o.duration <= Duration::from_micros(u64::from(FCNT_MAX_MICROS))
            }
            ChannelValue::Disabled => true,
            _ => false,
        },
        Com => matches!(v, ChannelValue::ComRsOut(_)),
        _ => false,
    }
}
