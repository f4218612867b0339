//! C17 - C19, C25, C26: parameters, identification, configuration, errors
//! and addresses.

use crate::{core::*, ensure, fail, rig::*, rng::Rng, spec::*};
use std::str::FromStr;
use ur20::{ur20_fbc_mod_tcp::*, *};

// ---------------------------------------------------------------- C17

fn pos<T: PartialEq + std::fmt::Debug>(all: &[T], x: &T) -> Result<i64, Fail> {
    match all.iter().position(|y| y == x) {
        Some(i) => Ok(i as i64),
        None => fail!("unexpected parameter {x:?}"),
    }
}

const DELAYS: [InputDelay; 6] = [
    InputDelay::no,
    InputDelay::us300,
    InputDelay::ms3,
    InputDelay::ms10,
    InputDelay::ms20,
    InputDelay::ms40,
];
const FREQ: [FrequencySuppression; 4] = [
    FrequencySuppression::Disabled,
    FrequencySuppression::Hz50,
    FrequencySuppression::Hz60,
    FrequencySuppression::Average16,
];
const FORMAT: [DataFormat; 2] = [DataFormat::S5, DataFormat::S7];
const UI: [AnalogUIRange; 9] = [
    AnalogUIRange::mA0To20,
    AnalogUIRange::mA4To20,
    AnalogUIRange::V0To10,
    AnalogUIRange::VMinus10To10,
    AnalogUIRange::V0To5,
    AnalogUIRange::VMinus5To5,
    AnalogUIRange::V1To5,
    AnalogUIRange::V2To10,
    AnalogUIRange::Disabled,
];
const IR: [AnalogIRange; 3] = [
    AnalogIRange::mA0To20,
    AnalogIRange::mA4To20,
    AnalogIRange::Disabled,
];
const UNIT: [TemperatureUnit; 3] = [
    TemperatureUnit::Celsius,
    TemperatureUnit::Fahrenheit,
    TemperatureUnit::Kelvin,
];
const RTD: [RtdRange; 19] = [
    RtdRange::PT100,
    RtdRange::PT200,
    RtdRange::PT500,
    RtdRange::PT1000,
    RtdRange::NI100,
    RtdRange::NI120,
    RtdRange::NI200,
    RtdRange::NI500,
    RtdRange::NI1000,
    RtdRange::Cu10,
    RtdRange::R40,
    RtdRange::R80,
    RtdRange::R150,
    RtdRange::R300,
    RtdRange::R500,
    RtdRange::R1000,
    RtdRange::R2000,
    RtdRange::R4000,
    RtdRange::Disabled,
];
const CONN: [ConnectionType; 3] = [
    ConnectionType::TwoWire,
    ConnectionType::ThreeWire,
    ConnectionType::FourWire,
];
const CONV: [ConversionTime; 6] = [
    ConversionTime::ms240,
    ConversionTime::ms130,
    ConversionTime::ms80,
    ConversionTime::ms55,
    ConversionTime::ms43,
    ConversionTime::ms36,
];
const FILTER: [InputFilter; 17] = [
    InputFilter::us5,
    InputFilter::us11,
    InputFilter::us21,
    InputFilter::us43,
    InputFilter::us83,
    InputFilter::us167,
    InputFilter::us333,
    InputFilter::us667,
    InputFilter::ms1,
    InputFilter::ms3,
    InputFilter::ms5,
    InputFilter::ms11,
    InputFilter::ms22,
    InputFilter::ms43,
    InputFilter::ms91,
    InputFilter::ms167,
    InputFilter::ms333,
];

/// What a parameter register says after decoding.
#[derive(Debug, Clone)]
enum P {
    Code(i64),
    /// substitute value of an analog output
    Subst(f32),
}

/// The decoded public parameters of a module, in register order again.
fn decoded(k: Kind, w: &[u16]) -> Result<Result<Vec<P>, Error>, Fail> {
    let mut v: Vec<P> = vec![];
    macro_rules! m {
        ($t:ty) => {
            match <$t as FromModbusParameterData>::from_modbus_parameter_data(w) {
                Ok(m) => m,
                Err(e) => return Ok(Err(e)),
            }
        };
    }
    macro_rules! code {
        ($x:expr) => {
            v.push(P::Code(i64::from($x)))
        };
    }
    macro_rules! chans {
        ($m:expr) => {
            ensure!(
                $m.ch_params.len() == k.channels(),
                "{k:?} {w:?}: {} channel parameters",
                $m.ch_params.len()
            )
        };
    }
    match k {
        Di4 => {
            let m = m!(ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>);
            chans!(m);
            for c in &m.ch_params {
                code!(pos(&DELAYS, &c.input_delay)?);
            }
        }
        Di8 => {
            let m = m!(ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>);
            chans!(m);
            for c in &m.ch_params {
                code!(pos(&DELAYS, &c.input_delay)?);
            }
        }
        Do4 => {
            let m = m!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>);
            chans!(m);
            for c in &m.ch_params {
                code!(c.substitute_value);
            }
        }
        Do4a => {
            let m = m!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>);
            chans!(m);
            for c in &m.ch_params {
                code!(c.substitute_value);
            }
        }
        Do8 => {
            let m = m!(ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>);
            chans!(m);
            for c in &m.ch_params {
                code!(c.substitute_value);
            }
        }
        Do16 => {
            let _ = m!(ur20_16do_p::Mod);
        }
        Ro4 => {
            let m = m!(ur20_4ro_co_255::Mod);
            chans!(m);
            for c in &m.ch_params {
                code!(c.substitute_value);
            }
        }
        Ui12 => {
            let m = m!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>);
            chans!(m);
            code!(pos(&FREQ, &m.mod_params.frequency_suppression)?);
            for c in &m.ch_params {
                code!(pos(&FORMAT, &c.data_format)?);
                code!(pos(&UI, &c.measurement_range)?);
            }
        }
        Ui16 => {
            let m = m!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>);
            chans!(m);
            code!(pos(&FREQ, &m.mod_params.frequency_suppression)?);
            for c in &m.ch_params {
                code!(pos(&FORMAT, &c.data_format)?);
                code!(pos(&UI, &c.measurement_range)?);
            }
        }
        UiDiag => {
            let m = m!(ur20_4ai_ui_16_diag::Mod);
            chans!(m);
            code!(pos(&FREQ, &m.mod_params.frequency_suppression)?);
            for c in &m.ch_params {
                code!(c.channel_diagnostics);
                code!(c.diag_short_circuit);
                code!(c.diag_line_break);
                code!(pos(&FORMAT, &c.data_format)?);
                code!(pos(&UI, &c.measurement_range)?);
            }
        }
        I8 => {
            let m = m!(ur20_8ai_i_16_diag_hd::Mod);
            chans!(m);
            code!(pos(&FREQ, &m.mod_params.frequency_suppression)?);
            for c in &m.ch_params {
                code!(c.channel_diagnostics);
                code!(c.diag_short_circuit);
                code!(pos(&FORMAT, &c.data_format)?);
                code!(pos(&IR, &c.measurement_range)?);
            }
        }
        Rtd => {
            let m = m!(ur20_4ai_rtd_diag::Mod);
            chans!(m);
            code!(pos(&UNIT, &m.mod_params.temperature_unit)?);
            for c in &m.ch_params {
                code!(pos(&RTD, &c.measurement_range)?);
                code!(pos(&CONN, &c.connection_type)?);
                code!(pos(&CONV, &c.conversion_time)?);
                code!(c.channel_diagnostics);
                code!(c.limit_value_monitoring);
                code!(c.high_limit_value as u16);
                code!(c.low_limit_value as u16);
            }
        }
        Tc => {
            use ur20_4ai_tc_diag::{ColdJunctionCompensation::*, MeasurementRange::*};
            let m = m!(ur20_4ai_tc_diag::Mod);
            chans!(m);
            code!(pos(&UNIT, &m.mod_params.temperature_unit)?);
            for c in m.ch_params.iter() {
                let ranges = [
                    TC_Type_J,
                    TC_Type_K,
                    TC_Type_N,
                    TC_Type_R,
                    TC_Type_S,
                    TC_Type_T,
                    TC_Type_B,
                    TC_Type_C,
                    TC_Type_E,
                    TC_Type_L,
                    TC_Type_U,
                    uVPlusMinus15625,
                    uVPlusMinus31250,
                    uVPlusMinus62500,
                    mVPlusMinus125,
                    mVPlusMinus250,
                    mVPlusMinus500,
                    VPlusMinus1,
                    VPlusMinus2,
                    Disabled,
                ];
                let cj = [
                    Internal,
                    ExternalChannel0,
                    ExternalChannel1,
                    ExternalChannel2,
                    ExternalChannel3,
                ];
                code!(pos(&ranges, &c.measurement_range)?);
                code!(pos(&cj, &c.cold_junction_compensation)?);
                code!(pos(&CONV, &c.conversion_time)?);
                code!(c.channel_diagnostics);
                code!(c.limit_value_monitoring);
                code!(c.high_limit_value as u16);
                code!(c.low_limit_value as u16);
            }
        }
        Ao => {
            let m = m!(ur20_4ao_ui_16::Mod);
            chans!(m);
            for c in &m.ch_params {
                code!(pos(&FORMAT, &c.data_format)?);
                code!(pos(&UI, &c.output_range)?);
                v.push(P::Subst(c.substitute_value));
            }
        }
        AoDiag => {
            let m = m!(ur20_4ao_ui_16_diag::Mod);
            chans!(m);
            for c in &m.ch_params {
                code!(pos(&FORMAT, &c.data_format)?);
                code!(pos(&UI, &c.output_range)?);
                v.push(P::Subst(c.substitute_value));
                code!(c.channel_diagnostics);
            }
        }
        Fcnt => {
            let m = m!(ur20_2fcnt_100::Mod);
            chans!(m);
            for c in &m.ch_params {
                code!(pos(&FILTER, &c.input_filter)?);
            }
        }
        Com => {
            use ur20_1com_232_485_422::*;
            let m = m!(Mod);
            chans!(m);
            let c = &m.ch_params[0];
            code!(pos(
                &[ProcessDataLength::EightBytes, ProcessDataLength::SixteenBytes],
                &m.mod_params.process_data_len
            )?);
            code!(pos(
                &[
                    OperatingMode::Disabled,
                    OperatingMode::RS232,
                    OperatingMode::RS485,
                    OperatingMode::RS422
                ],
                &c.operating_mode
            )?);
            code!(pos(
                &[
                    BaudRate::Baud_300,
                    BaudRate::Baud_600,
                    BaudRate::Baud_1200,
                    BaudRate::Baud_2400,
                    BaudRate::Baud_4800,
                    BaudRate::Baud_9600,
                    BaudRate::Baud_14400,
                    BaudRate::Baud_19200,
                    BaudRate::Baud_28800,
                    BaudRate::Baud_38400,
                    BaudRate::Baud_57600,
                    BaudRate::Baud_115200
                ],
                &c.baud_rate
            )?);
            code!(pos(&[StopBit::OneBit, StopBit::TwoBits], &c.stop_bit)?);
            code!(pos(&[Parity::None, Parity::Even, Parity::Odd], &c.parity)?);
            code!(pos(
                &[FlowControl::None, FlowControl::CTS_RTS, FlowControl::XON_XOFF],
                &c.flow_control
            )?);
            code!(pos(&[DataBits::SevenBits, DataBits::EightBits], &c.data_bits)?);
            code!(c.terminating_resistor);
            code!(u32::from(c.XON_char));
            code!(u32::from(c.XOFF_char));
        }
        Sil => {
            let _ = m!(ur20_pf_o_1di_sil::Mod);
        }
    }
    Ok(Ok(v))
}

/// The substitute value registers of the analog output modules.
fn is_subst(k: Kind, i: usize) -> bool {
    match k {
        Ao => i % 3 == 2,
        AoDiag => i % 4 == 2,
        _ => false,
    }
}

fn check_params(k: Kind, w: &[u16]) -> R {
    let fields = k.fields();
    let n = fields.len();
    let long_enough = if n == 0 { w.is_empty() } else { w.len() >= n };
    let valid = fields.iter().zip(w).all(|(d, x)| d.ok(*x));
    match decoded(k, w)? {
        Err(e) => {
            ensure!(
                !(long_enough && valid),
                "{k:?}: the valid parameters {w:x?} were rejected with {e:?}"
            );
            if long_enough {
                ensure!(
                    e == Error::ChannelParameter,
                    "{k:?}: the invalid parameters {w:x?} were rejected with {e:?}"
                );
            } else if valid {
                ensure!(
                    e == Error::BufferLength,
                    "{k:?}: {} parameter registers were rejected with {e:?}",
                    w.len()
                );
            }
        }
        Ok(v) => {
            ensure!(
                long_enough,
                "{k:?}: {} instead of {n} parameter registers were accepted: {w:x?}",
                w.len()
            );
            ensure!(valid, "{k:?}: the invalid parameters {w:x?} were accepted as {v:?}");
            ensure!(v.len() == n, "{k:?}: {} decoded parameters instead of {n}", v.len());
            for i in 0..n {
                let good = match &v[i] {
                    P::Code(c) => *c == i64::from(w[i]),
                    P::Subst(s) => {
                        let (format, range) = (w[i - 2], w[i - 1]);
                        match ui_range(range) {
                            Some((off, span)) => {
                                let lsb = span / factor(format);
                                (f64::from(*s) - (f64::from(w[i] as i16) * lsb + off)).abs()
                                    <= lsb * LSB_TOL
                            }
                            None => *s == 0.0,
                        }
                    }
                };
                ensure!(
                    good,
                    "{k:?}: parameter register {i} with the value {:#x} was decoded as {:?} ({w:x?})",
                    w[i],
                    v[i]
                );
            }
        }
    }
    Ok(())
}

pub fn c17() -> Check {
    Check {
        rule: "a case is one parameter register block of one module type; blocks differ in at least one register; register values outside of the documented codes, truncated and surplus blocks are included",
        assumptions: &["the register layout and the codes are those documented by the crate's public parameter types"],
        campaigns: vec![
            Campaign::all("registers", "every register of every module type x all 65536 values", 18 * 33, |c| {
                let k = KINDS[c.idx as usize / 33];
                let reg = c.idx as usize % 33;
                let n = k.fields().len();
                if reg >= n {
                    return Ok(());
                }
                for v in 0..=0xFFFFu16 {
                    // a fresh context every now and then
                    let mut p = if v % 64 == 0 || v < 64 { k.gen_params(&mut c.rng) } else { vec![0; n] };
                    if is_subst(k, reg) {
                        let g = k.gen_params(&mut c.rng);
                        p[reg - 1] = g[reg - 1];
                        p[reg - 2] = g[reg - 2];
                    }
                    p[reg] = v;
                    check_params(k, &p)?;
                }
                c.obs.eval(65536);
                c.obs.distinct(65536);
                c.obs.sample(|| format!("{k:?} register {reg}: all values"));
                Ok(())
            }),
            Campaign::all("lengths", "every module type x 0..=80 registers", 18, |c| {
                let k = KINDS[c.idx as usize];
                let n = k.fields().len();
                for len in 0..=80usize {
                    for bad in [false, true] {
                        let mut p = k.gen_params(&mut c.rng);
                        while p.len() < len {
                            p.push(c.rng.u16());
                        }
                        p.truncate(len);
                        if bad && len > 0 {
                            let i = c.rng.below(len);
                            p[i] = 0xFFFF;
                        }
                        check_params(k, &p)?;
                        c.obs.eval(1);
                        c.obs.distinct(1);
                        if len < n {
                            c.obs.count("truncated blocks", 1);
                        }
                    }
                }
                Ok(())
            }),
            Campaign::all("equal registers", "every pair of registers of every module type with equal or adjacent values, in several contexts", 18 * 33, |c| {
                let k = KINDS[c.idx as usize / 33];
                let a = c.idx as usize % 33;
                let n = k.fields().len();
                for b in a + 1..n {
                    for i in 0..400u32 {
                        let mut p = k.gen_params(&mut c.rng);
                        let v = match i {
                            0..256 => i as u16,
                            _ => p[if i % 2 == 0 { a } else { b }],
                        };
                        p[a] = v;
                        p[b] = v;
                        if i % 8 == 7 {
                            p[b] = v.wrapping_add(1);
                        }
                        check_params(k, &p)?;
                        c.obs.eval(1);
                        c.obs.case_hash(crate::rng::fnv(&bytes_of(&p)) ^ (k as u64) << 56);
                    }
                }
                // all registers of a kind
                if n > 0 {
                    for v in 0..256u16 {
                        check_params(k, &vec![v; n])?;
                        c.obs.eval(1);
                    }
                }
                Ok(())
            }),
            Campaign::all("characters", "every pair of XON and XOFF characters in all flow control and operating modes", 256, |c| {
                let n = Com.fields().len();
                for other in 0..256u16 {
                    for _ in 0..6 {
                        let mut p = Com.gen_params(&mut c.rng);
                        p[n - 2] = c.idx as u16;
                        p[n - 1] = other;
                        check_params(Com, &p)?;
                    }
                }
                c.obs.eval(6 * 256);
                c.obs.distinct(6 * 256);
                Ok(())
            }),
            Campaign::random("blocks", "random blocks with up to three invalid registers", 150_000, |c| {
                let k = *c.rng.pick(&KINDS);
                let mut p = k.gen_params(&mut c.rng);
                if c.rng.chance(1, 4) && !p.is_empty() {
                    for _ in 0..c.rng.range(1, 3) {
                        let i = c.rng.below(p.len());
                        p[i] = c.rng.word(&c.cx.lits);
                    }
                    c.obs.count("blocks with arbitrary registers", 1);
                }
                if c.rng.chance(1, 6) && !p.is_empty() {
                    let n = if c.rng.chance(1, 20) { c.rng.below(1100) } else { c.rng.below(8) };
                    for _ in 0..n {
                        p.push(c.rng.u16());
                    }
                }
                check_params(k, &p)?;
                c.obs.eval(1);
                let b = bytes_of(&p);
                c.obs.case_hash(crate::rng::fnv(&b) ^ (k as u64) << 56);
                c.obs.sample(|| format!("{k:?} {p:?}"));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C18

macro_rules! table {
    ($($t:ident, $id:expr, $cat:ident, $ch:expr;)*) => {
        /// type, name, id (if it has one), category, channels
        pub fn types() -> Vec<(ModuleType, &'static str, Option<u32>, ModuleCategory, usize)> {
            vec![$((ModuleType::$t, stringify!($t), $id, ModuleCategory::$cat, $ch)),*]
        }
    };
}
table! {
    UR20_4DI_P, Some(0x0009_1F84), DI, 4;
    UR20_4DI_P_3W, Some(0x001B_1F84), DI, 4;
    UR20_8DI_P_2W, Some(0x0013_1FC1), DI, 8;
    UR20_8DI_P_3W, Some(0x000A_1FC1), DI, 8;
    UR20_8DI_P_3W_HD, Some(0x0003_1FC1), DI, 8;
    UR20_16DI_P, Some(0x0004_9FC2), DI, 16;
    UR20_16DI_P_PLC_INT, Some(0x0005_9FC2), DI, 16;
    UR20_2DI_P_TS, Some(0x0F01_4700), DI, 2;
    UR20_4DI_P_TS, Some(0x0F02_4700), DI, 4;
    UR20_4DI_N, Some(0x0001_1F84), DI, 4;
    UR20_8DI_N_3W, Some(0x0002_1FC1), DI, 8;
    UR20_16DI_N, Some(0x000C_9FC2), DI, 16;
    UR20_16DI_N_PLC_INT, Some(0x000D_9FC2), DI, 16;
    UR20_4DI_2W_230V_AC, Some(0x0016_9F84), DI, 4;
    UR20_4DO_P, Some(0x0101_2FA0), DO, 4;
    UR20_4DO_P_2A, Some(0x0105_2FA0), DO, 4;
    UR20_4DO_PN_2A, Some(0x0115_2FC8), DO, 4;
    UR20_8DO_P, Some(0x0102_2FC8), DO, 8;
    UR20_8DO_P_2W_HD, Some(0x0119_2FC8), DO, 8;
    UR20_16DO_P, Some(0x0103_AFD0), DO, 16;
    UR20_16DO_P_PLC_INT, Some(0x0104_AFD0), DO, 16;
    UR20_4DO_N, Some(0x010A_2FA0), DO, 4;
    UR20_4DO_N_2A, Some(0x010B_2FA0), DO, 4;
    UR20_8DO_N, Some(0x010C_2FC8), DO, 8;
    UR20_16DO_N, Some(0x010D_AFD0), DO, 16;
    UR20_16DO_N_PLC_INT, Some(0x010E_AFD0), DO, 16;
    UR20_4RO_SSR_255, Some(0x0107_2FA0), DO, 4;
    UR20_4RO_CO_255, Some(0x0106_2FA0), DO, 4;
    UR20_2PWM_PN_0_5A, Some(0x0908_4880), PWM, 2;
    UR20_2PWM_PN_2A, Some(0x0909_4880), PWM, 2;
    UR20_4AI_UI_16, Some(0x0401_15C4), AI, 4;
    UR20_4AI_UI_16_DIAG, Some(0x0402_1544), AI, 4;
    UR20_4AI_UI_DIF_16_DIAG, Some(0x041E_1544), AI, 4;
    UR20_4AI_UI_16_HD, Some(0x0413_15C4), AI, 4;
    UR20_4AI_UI_16_DIAG_HD, Some(0x0414_1544), AI, 4;
    UR20_4AI_UI_12, Some(0x0411_15C4), AI, 4;
    UR20_8AI_I_16_HD, Some(0x0404_15C5), AI, 8;
    UR20_8AI_I_16_DIAG_HD, Some(0x0405_1545), AI, 8;
    UR20_8AI_I_PLC_INT, Some(0x0409_15C5), AI, 8;
    UR20_4AI_R_HS_16_DIAG, Some(0x041C_1544), AI, 4;
    UR20_2AI_SG_24_DIAG, Some(0x041B_356D), AI, 2;
    UR20_3EM_230V_AC, Some(0x0418_356D), AI, 8;
    UR20_4AO_UI_16, Some(0x0502_25E0), AO, 4;
    UR20_4AO_UI_16_M, Some(0x0506_25E0), AO, 4;
    UR20_4AO_UI_16_DIAG, Some(0x0501_2560), AO, 4;
    UR20_4AO_UI_16_M_DIAG, Some(0x0505_2560), AO, 4;
    UR20_4AO_UI_16_HD, Some(0x0504_25E0), AO, 4;
    UR20_4AO_UI_16_DIAG_HD, Some(0x0503_2560), AO, 4;
    UR20_1CNT_100_1DO, Some(0x08C1_3800), CNT, 1;
    UR20_2CNT_100, Some(0x08C3_3800), CNT, 2;
    UR20_1CNT_500, Some(0x08C4_3801), CNT, 1;
    UR20_2FCNT_100, Some(0x0881_28EE), CNT, 2;
    UR20_1SSI, Some(0x09C1_7880), COM, 1;
    UR20_1COM_232_485_422, Some(0x0E41_3FED), COM, 1;
    UR20_1COM_SAI_PRO, Some(0x0BC1_E800), COM, 1;
    UR20_4COM_IO_LINK, Some(0x0E81_276D), COM, 4;
    UR20_4AI_RTD_DIAG, Some(0x0406_1544), RTD, 4;
    UR20_4AI_TC_DIAG, Some(0x0407_1544), TC, 4;
    UR20_PF_I, None, PF, 0;
    UR20_PF_O, None, PF, 0;
    UR20_PF_O_1DI_SIL, Some(0x1801_9F43), PF, 1;
    UR20_PF_O_2DI_SIL, Some(0x1803_9F43), PF, 0;
    UR20_PF_O_2DI_DELAY_SIL, Some(0x1802_9F43), PF, 0;
}

const CATEGORIES: [(&str, ModuleCategory); 11] = [
    ("DI", ModuleCategory::DI),
    ("DO", ModuleCategory::DO),
    ("AI", ModuleCategory::AI),
    ("AO", ModuleCategory::AO),
    ("CNT", ModuleCategory::CNT),
    ("PWM", ModuleCategory::PWM),
    ("RTD", ModuleCategory::RTD),
    ("TC", ModuleCategory::TC),
    ("COM", ModuleCategory::COM),
    ("RO", ModuleCategory::RO),
    ("PF", ModuleCategory::PF),
];

fn spell(r: &mut Rng, s: &str) -> String {
    let sep = r.below(3);
    let case = r.below(3);
    s.chars()
        .map(|c| match c {
            '_' => match sep {
                0 => '_',
                1 => '-',
                _ => *r.pick(&['_', '-']),
            },
            c => match case {
                0 => c,
                1 => c.to_ascii_lowercase(),
                _ => {
                    if r.bool() {
                        c.to_ascii_lowercase()
                    } else {
                        c
                    }
                }
            },
        })
        .collect()
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let alphabet: Vec<char> = "ABCDIONPRSTUWX0123456789_- .\u{e4}\u{df}\u{130}\n\0".chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(c.len() + 1);
        match r.below(5) {
            4 => {
                // something which looks alike
                let seps: Vec<char> = "\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2212}\u{ff0d}\u{ff3f}\u{ad} .,:/+~\t\u{a0}".chars().collect();
                if let Some(x) = c.get_mut(i) {
                    *x = match *x {
                        '_' | '-' => *r.pick(&seps),
                        x if x.is_ascii_graphic() => char::from_u32(x as u32 + 0xFEE0).unwrap_or(x),
                        x => x,
                    };
                } else if let Some(a) = char::from_u32(r.u32() % 0x3000) {
                    c.insert(i, a);
                }
            }
            0 => c.insert(i, *r.pick(&alphabet)),
            1 if !c.is_empty() && i < c.len() => {
                c.remove(i);
            }
            2 if i < c.len() => c[i] = *r.pick(&alphabet),
            3 if i + 1 < c.len() => c.swap(i, i + 1),
            _ => {}
        }
    }
    c.into_iter().collect()
}

fn check_name(s: &str) -> R {
    let norm = s.to_uppercase().replace('-', "_");
    let want = types().into_iter().find(|t| t.1 == norm).map(|t| t.0);
    match (ModuleType::from_str(s), want) {
        (Ok(a), Some(b)) if a == b => {}
        (Err(Error::UnknownModule), None) => {}
        // A name with exotic letters is not specified.
        (_, Some(_)) if !s.is_ascii() => {}
        (g, w) => fail!("the module name {s:?} is {g:?}, expected {w:?}"),
    }
    let norm = s.to_uppercase();
    let want = CATEGORIES.iter().find(|c| c.0 == norm).map(|c| c.1.clone());
    match (ModuleCategory::from_str(s), want) {
        (Ok(a), Some(b)) if a == b => {}
        (Err(Error::UnknownCategory), None) => {}
        (_, Some(_)) if !s.is_ascii() => {}
        (g, w) => fail!("the category name {s:?} is {g:?}, expected {w:?}"),
    }
    Ok(())
}

pub fn c18() -> Check {
    Check {
        rule: "a case is one 32 bit identifier or one name; all identifiers are enumerated, names are the known ones in every spelling, mutations of them and arbitrary text",
        assumptions: &["the table of identifiers, categories and channel counts of the vendor's manual (copied into the monitor)"],
        campaigns: vec![
            Campaign::all("identifiers", "all 2^32 identifiers", 4096, |c| {
                let all = types();
                let base = (c.idx as u32) << 20;
                let mut ids: Vec<(u32, &ModuleType)> = all
                    .iter()
                    .filter_map(|t| t.2.map(|i| (i, &t.0)))
                    .filter(|(i, _)| i & !0xF_FFFF == base)
                    .collect();
                ids.sort_by_key(|x| x.0);
                let mut next = ids.iter().peekable();
                for id in base..=base | 0xF_FFFF {
                    let want = next.next_if(|x| x.0 == id).map(|x| x.1);
                    match (ModuleType::try_from_u32(id), want) {
                        (Err(Error::UnknownModule), None) => {}
                        (Ok(t), Some(w)) if t == *w => {}
                        (g, w) => fail!("the identifier {id:#010x} is {g:?}, expected {w:?}"),
                    }
                }
                c.obs.eval(1 << 20);
                c.obs.distinct(1 << 20);
                c.obs.count("known identifiers", ids.len() as u64);
                Ok(())
            }),
            Campaign::all("types", "channel count and category of every module type", 63, |c| {
                let all = types();
                let (t, name, _, cat, ch) = all[c.idx as usize].clone();
                ensure!(t.channel_count() == ch, "{name} has {} channels instead of {ch}", t.channel_count());
                let got = ModuleCategory::from(t.clone());
                ensure!(got == cat, "{name} belongs to {got:?} instead of {cat:?}");
                for _ in 0..200 {
                    let s = spell(&mut c.rng, name);
                    check_name(&s)?;
                    c.obs.eval(1);
                }
                c.obs.eval(2);
                c.obs.distinct(2);
                c.obs.sample(|| format!("{name}: {cat:?}, {ch} channels"));
                Ok(())
            }),
            Campaign::all("categories", "every category name in every spelling, all text up to three letters", 27, |c| {
                let sym: Vec<char> = (b'A'..=b'Z').map(char::from).collect();
                let first = sym.get(c.idx as usize).copied();
                let mut texts: Vec<String> = vec![];
                match first {
                    None => texts.push(String::new()),
                    Some(a) => {
                        texts.push(a.to_string());
                        for b in &sym {
                            texts.push(format!("{a}{b}"));
                            for d in &sym {
                                texts.push(format!("{a}{b}{d}"));
                            }
                        }
                    }
                }
                for t in texts {
                    // every upper / lower case spelling
                    for mask in 0..1u32 << t.len() {
                        let s: String = t
                            .chars()
                            .enumerate()
                            .map(|(i, ch)| if mask >> i & 1 == 1 { ch.to_ascii_lowercase() } else { ch })
                            .collect();
                        let want = CATEGORIES.iter().find(|x| x.0 == t).map(|x| x.1.clone());
                        match (ModuleCategory::from_str(&s), want) {
                            (Ok(a), Some(b)) if a == b => {}
                            (Err(Error::UnknownCategory), None) => {}
                            (g, w) => fail!("the category name {s:?} is {g:?}, expected {w:?}"),
                        }
                        c.obs.eval(1);
                        c.obs.distinct(1);
                    }
                }
                Ok(())
            }),
            Campaign::random("module lists", "identifiers in the module list of a station", 60_000, |c| {
                let all: Vec<(u32, ModuleType)> = types().into_iter().filter_map(|t| t.2.map(|i| (i, t.0))).collect();
                let n = if c.rng.bool() { 1 } else { c.rng.range(1, 10) };
                let at = c.rng.below(n);
                let ids: Vec<u32> = (0..n)
                    .map(|i| {
                        let id = c.rng.pick(&all).0;
                        match c.rng.below(if i == at { 10 } else { 1 }) {
                            1 => id.rotate_left(16),
                            2 => id.swap_bytes(),
                            3 => id ^ 1 << c.rng.below(32),
                            4 => id & 0xFFFF_0000 | u32::from(c.rng.u16()),
                            5 => id & 0xFFFF | u32::from(c.rng.u16()) << 16,
                            6 => *c.rng.pick(&[0, 1, 0xFFFF, 0xFFFF_FFFF, 0x8000_0000]),
                            _ => id,
                        }
                    })
                    .collect();
                let w: Vec<u16> = ids.iter().flat_map(|i| [(i >> 16) as u16, *i as u16]).collect();
                let want: Option<Vec<ModuleType>> =
                    ids.iter().map(|i| all.iter().find(|t| t.0 == *i).map(|t| t.1.clone())).collect();
                match (module_list_from_registers(&w), want) {
                    (Err(Error::UnknownModule), None) => {}
                    (Ok(g), Some(v)) if g == v => {}
                    (g, v) => fail!("the module list {w:x?} is {g:?}, expected {v:?}"),
                }
                c.obs.eval(1);
                c.obs.case_hash(crate::rng::fnv(&bytes_of(&w)));
                Ok(())
            }),
            Campaign::random("names", "spellings and mutations of names, arbitrary text", 300_000, |c| {
                let all = types();
                let name = if c.rng.chance(1, 5) { c.rng.pick(&CATEGORIES).0 } else { c.rng.pick(&all).1 };
                let s = match c.rng.below(8) {
                    0 => {
                        let n = c.rng.below(24);
                        String::from_utf8_lossy(&c.rng.bytes(n)).into_owned()
                    }
                    1..=3 => spell(&mut c.rng, name),
                    4 => spell(&mut c.rng, name).replace("UR20", *c.rng.pick(&["UR20 ", "UR-20", "UR2O", "", "ur67"])),
                    _ => {
                        let t = spell(&mut c.rng, name);
                        mutate(&mut c.rng, &t)
                    }
                };
                check_name(&s)?;
                c.obs.eval(2);
                c.obs.case_hash(crate::rng::fnv(s.as_bytes()));
                c.obs.sample(|| format!("{s:?}"));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C19

pub fn c19() -> Check {
    Check {
        rule: "a case is one coupler configuration (module list, offset table, parameter blocks), complete or with one or more inconsistencies; non-trivial: at least one module",
        assumptions: &["a configuration with an unsupported module type may be refused by a panic, as today, or by an error"],
        campaigns: vec![
            Campaign::random("configurations", "valid and inconsistent configurations", 60_000, |c| {
                let r = &mut c.rng;
                let o = match r.below(200) {
                    0 => Opts::default().n(64, 240),
                    1..11 => Opts::default().n(1, 64),
                    _ => Opts::default().n(1, 8),
                };
                let rig = Rig::gen(r, &o);
                let mut cfg = rig.config();
                // surplus registers are ignored
                for (s, p) in rig.slots.iter().zip(cfg.params.iter_mut()) {
                    if !p.is_empty() && r.chance(1, 8) {
                        for _ in 0..r.range(1, 40) {
                            p.push(r.u16());
                        }
                    }
                    let _ = s;
                }
                let n = rig.slots.len();
                let bad = r.below(8);
                let mut want: Option<Vec<Error>> = None;
                match bad {
                    0 => {
                        // one register too few
                        let m = r.below(n);
                        let len = rig.slots[m].params.len();
                        if len > 0 {
                            cfg.params[m].truncate(r.below(len));
                            want = Some(vec![Error::BufferLength]);
                        } else {
                            cfg.params[m].push(r.u16());
                            want = Some(vec![Error::BufferLength]);
                        }
                    }
                    1 => {
                        // an invalid code
                        let m = r.below(n);
                        let f = rig.slots[m].kind.fields();
                        let cand: Vec<usize> = (0..f.len()).filter(|i| f[*i] != Dom::Any).collect();
                        if !cand.is_empty() {
                            let i = *r.pick(&cand);
                            let Dom::Max(max) = f[i] else { return Ok(()) };
                            cfg.params[m][i] = max + 1 + r.below((0xFFFF - max) as usize) as u16;
                            want = Some(vec![Error::ChannelParameter]);
                        }
                    }
                    2 => {
                        // lists of different length
                        if r.bool() {
                            let k = if r.chance(1, 20) { 1 << r.range(2, 17) } else { r.range(1, 3) };
                            for _ in 0..k {
                                cfg.params.push(match r.below(4) {
                                    0 => vec![],
                                    1 => cfg.params[n - 1].clone(),
                                    2 => vec![0; 4],
                                    _ => vec![0; 64],
                                });
                            }
                        } else {
                            cfg.params.truncate(r.below(n));
                        }
                        want = Some(vec![Error::BufferLength]);
                    }
                    3 => {
                        match r.below(7) {
                            6 => cfg.offsets.extend(vec![0xFFFF; 1 << r.range(1, 17)]),
                            0 => cfg.offsets.truncate(r.below(2 * n)),
                            1 => cfg.offsets.truncate(2 * n - r.range(1, 2)),
                            2 => cfg.offsets.push(0xFFFF),
                            3 => cfg.offsets.push(*r.pick(&[0, 0x8000])),
                            4 => cfg.offsets.extend([0xFFFF; 2]),
                            _ => cfg.offsets.extend_from_within(..),
                        }
                        want = Some(vec![Error::ModuleOffset]);
                    }
                    _ => {}
                }
                match (Coupler::new(&cfg), want) {
                    (Ok(mut cpl), None) => {
                        // the accepted station works
                        let i = rig.gen_input(r, &c.cx.lits);
                        let o = rig.gen_output(r, &c.cx.lits);
                        let mut m = Model::new(&rig);
                        let w = m.step(&i, &o);
                        let g = next_ok(&mut cpl, &i, &o, "first cycle", &rig)?;
                        cmp_image(&w, &g, "first cycle", &rig)?;
                        m.check_values(&cpl, "first cycle")?;
                        ensure!(cpl.inputs().len() == n && cpl.outputs().len() == n, "{} modules are reported as {} / {}", n, cpl.inputs().len(), cpl.outputs().len());
                        for (m, s) in rig.slots.iter().enumerate() {
                            let ch = s.kind.channels();
                            ensure!(
                                cpl.inputs()[m].len() == ch && cpl.outputs()[m].len() == ch,
                                "module {m} {:?}: {} / {} channel values",
                                s.kind,
                                cpl.inputs()[m].len(),
                                cpl.outputs()[m].len()
                            );
                        }
                        // serial modules use the process data of their position
                        let coms: Vec<usize> = rig.com_slots().into_iter().filter(|s| rig.slots[*s].out.is_some()).collect();
                        if !coms.is_empty() {
                            for s in coms {
                                let d = r.data(40);
                                match cpl.writer(s).map(|x| x.write_all(&d)) {
                                    Some(Ok(())) => {}
                                    x => fail!("module {s} of a new station: write of 40 bytes: {x:?} ({})", rig.show()),
                                }
                                m.com.entry(s).or_default().write(&d, rig.slots[s].out_len() - 2);
                            }
                            let mut o = w;
                            for cyc in 1..5 {
                                let i = rig.gen_input(r, &c.cx.lits);
                                let w = m.step(&i, &o);
                                let g = next_ok(&mut cpl, &i, &o, "next cycle", &rig)?;
                                cmp_image(&w, &g, &format!("cycle {cyc} of a new station"), &rig)?;
                                o = w;
                            }
                            c.obs.count("stations with serial traffic", 1);
                        }
                        c.obs.count("accepted", 1);
                    }
                    (Err(e), Some(w)) => {
                        ensure!(w.contains(&e), "an inconsistent configuration was refused with {e:?} instead of {w:?}: {cfg:?}");
                        c.obs.count(&format!("refused with {e:?}"), 1);
                    }
                    (Ok(_), Some(w)) => fail!("an inconsistent configuration ({w:?}) was accepted: {cfg:?}"),
                    (Err(e), None) => fail!("a valid configuration was refused with {e:?}: {cfg:?}"),
                }
                c.obs.eval(1);
                c.obs.case_hash(crate::rng::fnv(rig.show().as_bytes()) ^ bad as u64);
                c.obs.sample(|| rig.show());
                Ok(())
            }),
            Campaign::all("list lengths", "0..6 modules with 0..8 parameter blocks and 0..16 offset registers", 7 * 9 * 17, |c| {
                let k = c.idx as usize;
                let (n, np, no) = (k % 7, k / 7 % 9, k / 63);
                for round in 0..6 {
                    let o = Opts::default().n(n.max(1), n.max(1));
                    let rig = Rig::gen(&mut c.rng, &o);
                    let mut cfg = rig.config();
                    if n == 0 {
                        cfg = CouplerConfig { modules: vec![], offsets: vec![], params: vec![] };
                    }
                    while cfg.params.len() < np {
                        cfg.params.push(vec![0; [0, 1, 4, 40][(round + cfg.params.len()) % 4]]);
                    }
                    cfg.params.truncate(np);
                    while cfg.offsets.len() < no {
                        cfg.offsets.push([0xFFFF, 0, 0x8000][round % 3]);
                    }
                    cfg.offsets.truncate(no);
                    let mut want = vec![];
                    if np != n {
                        want.push(Error::BufferLength);
                    }
                    if no != 2 * n {
                        want.push(Error::ModuleOffset);
                    }
                    match Coupler::new(&cfg) {
                        Ok(_) => {
                            ensure!(want.is_empty(), "{n} modules with {np} parameter blocks and {no} offset registers were accepted: {cfg:?}");
                            c.obs.count("accepted list lengths", 1);
                        }
                        Err(e) => ensure!(want.contains(&e), "{n} modules with {np} parameter blocks and {no} offset registers: {e:?} instead of {want:?}"),
                    }
                    c.obs.eval(1);
                }
                c.obs.distinct(1);
                c.obs.sample(|| format!("{n} modules, {np} parameter blocks, {no} offset registers"));
                Ok(())
            }),
            Campaign::all("unsupported", "every module type which is not supported, alone and among others", 63, |c| {
                let all = types();
                let t = all[c.idx as usize].0.clone();
                if Kind::of(&t).is_some() {
                    return Ok(());
                }
                for _ in 0..40 {
                    let rig = Rig::gen(&mut c.rng, &Opts::default().n(0, 4));
                    let mut cfg = rig.config();
                    let at = c.rng.below(cfg.modules.len() + 1);
                    cfg.modules.insert(at, t.clone());
                    let n = c.rng.below(40);
                    cfg.params.insert(at, vec![0; n]);
                    cfg.offsets.splice(2 * at..2 * at, [0xFFFF, 0xFFFF]);
                    if let Ok(Ok(_)) = may_panic(|| Coupler::new(&cfg)) {
                        fail!("a coupler was created for the unsupported module type {t:?}");
                    }
                    c.obs.eval(1);
                    c.obs.distinct(1);
                }
                c.obs.sample(|| format!("{t:?} is refused"));
                Ok(())
            }),
            Campaign::all("modules", "type, register count, data size and value shape of every supported module", 18, |c| {
                let k = KINDS[c.idx as usize];
                let t = k.ty();
                let n = k.fields().len();
                ensure!(usize::from(t.param_register_count()) == n, "{t:?}: {} instead of {n} parameter registers", t.param_register_count());
                for round in 0..400 {
                    let p = k.gen_params(&mut c.rng);
                    let m = match k.build(&p) {
                        Ok(m) => m,
                        Err(e) => fail!("{k:?} rejects exactly {n} valid registers {p:?}: {e:?}"),
                    };
                    if n > 0 {
                        ensure!(k.build(&p[..n - 1]).is_err(), "{k:?} accepts {} of {n} registers", n - 1);
                    }
                    ensure!(m.module_type() == t, "{t:?} calls itself {:?}", m.module_type());
                    ensure!(m.process_input_byte_count() == k.in_bytes(&p), "{t:?} {p:?}: {} input bytes", m.process_input_byte_count());
                    ensure!(m.process_output_byte_count() == k.out_bytes(&p), "{t:?} {p:?}: {} output bytes", m.process_output_byte_count());
                    let ch = k.channels();
                    let i = words_of(&gen_in(k, &p, &mut c.rng, &c.cx.lits));
                    let o = words_of(&gen_out(k, &p, &mut c.rng, &c.cx.lits));
                    match m.process_input_data(&i) {
                        Ok(v) if v.len() == ch => {}
                        x => fail!("{t:?} {p:?}: input {i:x?} is {x:?}"),
                    }
                    let v = match m.process_output_data(&o) {
                        Ok(v) if v.len() == ch => v,
                        x => fail!("{t:?} {p:?}: output {o:x?} is {x:?}"),
                    };
                    match m.process_output_values(&v) {
                        Ok(w) if w.len() == o.len() => {}
                        x => fail!("{t:?} {p:?}: the output state {v:?} becomes {x:?}"),
                    }
                    c.obs.eval(6);
                    if round == 0 {
                        c.obs.sample(|| format!("{t:?} {p:?}"));
                    }
                    c.obs.distinct(1);
                }
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C25

fn messages(e: &Error) -> Option<(&'static str, bool)> {
    Some(match e {
        Error::UnknownModule => ("unknown module type", false),
        Error::UnknownCategory => ("unknown module category", false),
        Error::BufferLength => ("invalid buffer length", false),
        Error::SequenceNumber => ("invalid sequence number", false),
        Error::DataLength => ("invalid data length", false),
        Error::RegisterCount => ("invalid number of registers", false),
        // the spelling is not part of the contract
        Error::ChannelParameter => ("invalid channel", true),
        Error::ChannelValue => ("invalid channel value(s)", false),
        Error::ModuleOffset => ("invalid module offset", false),
        Error::Address => ("invalid module address", false),
        Error::Io(_) => return None,
    })
}

fn check_msg(e: &Error) -> R {
    let s = e.to_string();
    match (e, messages(e)) {
        (Error::Io(m), _) => {
            ensure!(s == format!("I/O error: {m}"), "{e:?} is displayed as {s:?}")
        }
        (_, Some((m, prefix))) => {
            ensure!(
                if prefix { s.starts_with(m) && s.len() > m.len() && s != "invalid channel value(s)" } else { s == m },
                "{e:?} is displayed as {s:?}"
            );
        }
        _ => {}
    }
    fn std_error<E: std::error::Error>(e: &E) -> String {
        e.to_string()
    }
    ensure!(std_error(e) == s, "{e:?}: inconsistent messages");
    // the former way to get the message, where it is provided
    #[allow(deprecated)]
    let d = std::error::Error::description(e);
    match messages(e) {
        _ if d.starts_with("description() is deprecated") => {}
        Some((m, prefix)) => ensure!(
            if prefix { d.starts_with(m) && d != "invalid channel value(s)" } else { d == m },
            "{e:?} describes itself as {d:?}"
        ),
        None => ensure!(s.contains(d), "{e:?} describes itself as {d:?}"),
    }
    Ok(())
}

/// A station of one module.
fn single(r: &mut Rng, k: Kind) -> Rig {
    let p = k.gen_params(r);
    Rig::layout(r, vec![(k, p)], &Opts { absent: 0, ..Opts::default() })
}

/// Every failure class of the public interface: what fails, the outcome and
/// the expected kind.
fn failing_call(r: &mut Rng, lits: &[u64], which: usize) -> (String, Result<(), Error>, Error) {
    use ur20_1com_232_485_422 as com;
    let any_kind = |r: &mut Rng| *r.pick(&KINDS);
    match which {
        0 => loop {
            let id = match r.below(4) {
                0 => *r.pick(&[0, 0xFFFF_FFFF, 1, 0xFFFF, 0xFFFF_0000, 0x8000_0000]),
                1 => {
                    let all = types();
                    r.pick(&all).2.unwrap_or(0) ^ 1 << r.below(32)
                }
                _ => r.u32(),
            };
            if types().iter().any(|t| t.2 == Some(id)) {
                continue;
            }
            if r.bool() {
                // as a part of a module list
                let mut w = vec![];
                for _ in 0..r.below(5) {
                    w.extend([0x0009, 0x1F84]);
                }
                let at = 2 * r.below(w.len() / 2 + 1);
                w.splice(at..at, [(id >> 16) as u16, id as u16]);
                break (
                    format!("module list {w:x?}"),
                    module_list_from_registers(&w).map(drop),
                    Error::UnknownModule,
                );
            }
            break (
                format!("identifier {id:#x}"),
                ModuleType::try_from_u32(id).map(drop),
                Error::UnknownModule,
            );
        },
        1 => {
            let s = format!("UR20-{}", r.u32());
            let g = s.parse::<ModuleType>().map(drop);
            (format!("name {s}"), g, Error::UnknownModule)
        }
        2 => {
            let s = format!("X{}", r.u16());
            let g = s.parse::<ModuleCategory>().map(drop);
            (format!("category {s}"), g, Error::UnknownCategory)
        }
        3 => {
            let k = loop {
                let k = any_kind(r);
                if !k.fields().is_empty() {
                    break k;
                }
            };
            let p = k.gen_params(r);
            let n = r.below(p.len());
            (
                format!("{k:?} with {n} parameter registers"),
                k.build(&p[..n]).map(drop),
                Error::BufferLength,
            )
        }
        4 => {
            let k = loop {
                let k = any_kind(r);
                if !k.fields().is_empty() {
                    break k;
                }
            };
            let mut p = k.gen_params(r);
            let f = k.fields();
            let i = loop {
                let i = r.below(f.len());
                if f[i] != Dom::Any {
                    break i;
                }
            };
            p[i] = 0x1000 | r.u16();
            (
                format!("{k:?} with parameters {p:x?}"),
                k.build(&p).map(drop),
                Error::ChannelParameter,
            )
        }
        5 => {
            let n = match r.below(8) {
                0 | 1 => 0,
                2 => 2 * r.below(400) + 1,
                _ => 2 * r.below(8) + 1,
            };
            let w: Vec<u16> = (0..n).map(|_| r.u16()).collect();
            (
                format!("module list {w:x?}"),
                module_list_from_registers(&w).map(drop),
                Error::RegisterCount,
            )
        }
        6 => {
            let o = com::ProcessOutput {
                tx_cnt: if r.bool() { 4 + r.below(300) } else { 1 },
                rx_cnt_ack: 4 + r.below(1000),
                ..Default::default()
            };
            (
                format!("{o:?}"),
                o.try_into_byte_message(&com::ProcessDataLength::EightBytes).map(drop),
                Error::SequenceNumber,
            )
        }
        7 => {
            let long = r.bool();
            let max = if long { 14 } else { 6 };
            let n = max + r.range(1, 300);
            let o = com::ProcessOutput {
                data: r.bytes(n),
                tx_cnt: r.below(4),
                rx_cnt_ack: r.below(4),
                ..Default::default()
            };
            let l = if long {
                com::ProcessDataLength::SixteenBytes
            } else {
                com::ProcessDataLength::EightBytes
            };
            (
                format!("serial message with {n} bytes"),
                o.try_into_byte_message(&l).map(drop),
                Error::DataLength,
            )
        }
        8 => {
            let n = r.below(20);
            let mut b = r.bytes(n);
            if n >= 2 {
                b[1] = (n - 2) as u8 + 1 + r.below(200) as u8;
            }
            let g = if r.bool() {
                com::ProcessInput::try_from_byte_message(&b).map(drop)
            } else {
                com::ProcessOutput::try_from_byte_message(&b).map(drop)
            };
            (format!("serial frame {b:x?}"), g, Error::BufferLength)
        }
        9 => {
            // a request of the wrong type
            let k = loop {
                let k = any_kind(r);
                if k.has_out() && k != Com {
                    break k;
                }
            };
            let rig = single(r, k);
            let v = loop {
                let v = super::values::any_value(r, lits);
                if !well_typed(k, &v) {
                    break v;
                }
            };
            let ch = r.below(k.channels());
            let what = format!("{v:?} for an output of {k:?}");
            let g = Coupler::new(&rig.config()).and_then(|mut c| {
                c.set_output(&addr(0, ch), v)?;
                let (i, o) = (rig.gen_input(r, lits), rig.gen_output(r, lits));
                c.next(&words_of(&i), &words_of(&o)).map(drop)
            });
            (what, g, Error::ChannelValue)
        }
        10 => {
            let rig = Rig::gen(r, &Opts::default().n(1, 6));
            let (m, ch) = if r.bool() {
                (rig.slots.len() + r.below(3), 0)
            } else {
                let m = r.below(rig.slots.len());
                (m, rig.slots[m].kind.channels() + r.below(3))
            };
            let g = Coupler::new(&rig.config())
                .and_then(|mut c| c.set_output(&addr(m, ch), ChannelValue::Bit(true)));
            (format!("channel {ch} of module {m} ({})", rig.show()), g, Error::Address)
        }
        11 => {
            // truncated image
            let k = loop {
                let k = any_kind(r);
                if k.has_in() {
                    break k;
                }
            };
            let rig = single(r, k);
            let i = words_of(&rig.gen_input(r, lits));
            let cut = r.below(i.len());
            let o = words_of(&rig.gen_output(r, lits));
            let g = Coupler::new(&rig.config()).and_then(|mut c| c.next(&i[..cut], &o).map(drop));
            (format!("{cut} of {} input registers of {k:?}", i.len()), g, Error::BufferLength)
        }
        12 => {
            // an offset which is not byte aligned
            let k = loop {
                let k = any_kind(r);
                if k.has_in() {
                    break k;
                }
            };
            let rig = single(r, k);
            let mut cfg = rig.config();
            let bit = loop {
                let b = r.below(16) as u16;
                if b % 8 != 0 {
                    break b;
                }
            };
            cfg.offsets[1] = cfg.offsets[1] & !0xF | bit;
            let mut i = rig.gen_input(r, lits);
            i.extend(vec![0; 40]);
            let o = words_of(&rig.gen_output(r, lits));
            let g = Coupler::new(&cfg).and_then(|mut c| c.next(&words_of(&i), &o).map(drop));
            (format!("bit offset {bit} of {k:?}"), g, Error::ModuleOffset)
        }
        13 => {
            // the public channel parameters do not fit the module any more
            let k = *r.pick(&[Ui12, Ui16, UiDiag, I8, Rtd, Ao, AoDiag, Fcnt]);
            let p = k.gen_params(r);
            let n = loop {
                let n = r.below(12);
                if n != k.channels() {
                    break n;
                }
            };
            let i = words_of(&gen_in(k, &p, r, lits));
            let o = words_of(&gen_out(k, &p, r, lits));
            let v: Vec<_> = (0..k.channels()).map(|ch| gen_req(k, &p, ch, r, lits)).collect();
            let g = match super::robust::tampered(k, &p, n) {
                None => Err(Error::Io(format!("{k:?} rejects {p:?}"))),
                Some(m) => match r.below(3) {
                    0 if k.has_in() => m.process_input_data(&i).map(drop),
                    1 if matches!(k, Ao | AoDiag) => m.process_output_data(&o).map(drop),
                    _ if matches!(k, Ao | AoDiag) => m.process_output_values(&v).map(drop),
                    _ => m.process_input_data(&i).map(drop),
                },
            };
            (format!("{k:?} with {n} channel parameters"), g, Error::ChannelParameter)
        }
        14 => {
            // an output offset below the output area
            let k = loop {
                let k = any_kind(r);
                if k.has_out() {
                    break k;
                }
            };
            let rig = single(r, k);
            let mut cfg = rig.config();
            cfg.offsets[0] = r.below(0x8000) as u16 & !7;
            let i = words_of(&rig.gen_input(r, lits));
            let o = words_of(&rig.gen_output(r, lits));
            let what = format!("output offset {:#x}", cfg.offsets[0]);
            let g = Coupler::new(&cfg).and_then(|mut c| c.next(&i, &o).map(drop));
            (what, g, Error::ModuleOffset)
        }
        15 => {
            // a wrong number of values
            let k = any_kind(r);
            let p = k.gen_params(r);
            let n = loop {
                let n = match r.below(6) {
                    0 => 0,
                    1 => k.channels() + 1,
                    2 => k.channels() - 1,
                    3 => 300 + r.below(300),
                    _ => r.below(20),
                };
                if n != k.channels() && (n > 0 || k.has_out()) {
                    break n;
                }
            };
            let same = r.bool().then(|| super::values::any_value(r, lits));
            let v: Vec<_> = (0..n)
                .map(|i| same.clone().unwrap_or_else(|| gen_req(k, &p, i % k.channels(), r, lits)))
                .collect();
            let g = k.build(&p).and_then(|m| m.process_output_values(&v).map(drop));
            (format!("{k:?} with {n} values"), g, Error::ChannelValue)
        }
        16 | 17 => {
            // raw data of a wrong length
            let k = any_kind(r);
            let p = k.gen_params(r);
            let input = which == 16;
            let need = if input { k.in_bytes(&p) } else { k.out_bytes(&p) }.div_ceil(2);
            let n = loop {
                let n = match r.below(6) {
                    0 => 0,
                    1 => need + 1,
                    2 => need.saturating_sub(1),
                    3 => 250 + r.below(300),
                    _ => r.below(40),
                };
                if k == Com && n == 0 {
                    break 0;
                }
                if k != Com && n != need {
                    break n;
                }
            };
            let w: Vec<u16> = (0..n).map(|_| r.u16()).collect();
            let g = k.build(&p).and_then(|m| {
                if input { m.process_input_data(&w) } else { m.process_output_data(&w) }.map(drop)
            });
            (format!("{k:?} with {n} raw registers (input: {input})"), g, Error::BufferLength)
        }
        18 => {
            // a truncated image of a larger station
            let rig = loop {
                let rig = Rig::gen(r, &Opts { in_gaps: false, ..Opts::default() }.n(1, 30));
                if rig.in_size + rig.out_size > 0 {
                    break rig;
                }
            };
            let (i, o) = (words_of(&rig.gen_input(r, lits)), words_of(&rig.gen_output(r, lits)));
            let used = |f: &dyn Fn(&Slot) -> Option<usize>| rig.slots.iter().filter_map(f).max().unwrap_or(0).div_ceil(2);
            let (iu, ou) = (
                used(&|s| s.inp.filter(|_| s.in_len() > 0).map(|p| p + s.in_len())),
                used(&|s| s.out.filter(|_| s.out_len() > 0).map(|p| p + s.out_len())),
            );
            let input = ou == 0 || iu > 0 && r.bool();
            let u = if input { iu } else { ou };
            let cut = if r.bool() { u - 1 } else { r.below(u) };
            let g = Coupler::new(&rig.config()).and_then(|mut c| {
                if input { c.next(&i[..cut], &o) } else { c.next(&i, &o[..cut]) }.map(drop)
            });
            (format!("{cut} of {u} registers (input: {input}) of {}", rig.show()), g, Error::BufferLength)
        }
        19 => {
            // a measurement which takes too long
            let p = Fcnt.gen_params(r);
            let mut v: Vec<_> = (0..2).map(|ch| gen_req(Fcnt, &p, ch, r, lits)).collect();
            let ch = r.below(2);
            let duration = match r.below(4) {
                0 => std::time::Duration::from_nanos(8_388_607_001 + r.below(3000) as u64),
                1 => std::time::Duration::from_micros(8_388_608 + r.below(10_000_000) as u64),
                2 => std::time::Duration::from_micros(1 << 32 | r.u32() as u64),
                _ => std::time::Duration::new(1 << 32 | r.u32() as u64, 0),
            };
            let command = match r.below(3) {
                0 => None,
                1 => Some(ur20_2fcnt_100::Command::Start),
                _ => Some(ur20_2fcnt_100::Command::Stop),
            };
            v[ch] = ChannelValue::FcntOut(ur20_2fcnt_100::ProcessOutput { duration, command });
            let what = format!("a counter with {v:?}");
            let g = if r.bool() {
                Fcnt.build(&p).and_then(|m| m.process_output_values(&v).map(drop))
            } else {
                let rig = Rig::layout(r, vec![(Fcnt, p)], &Opts { absent: 0, ..Opts::default() });
                Coupler::new(&rig.config()).and_then(|mut c| {
                    let (i, o) = (rig.gen_input(r, lits), rig.gen_output(r, lits));
                    let (i, o) = (words_of(&i), words_of(&o));
                    c.next(&i, &o)?;
                    c.set_output(&addr(0, ch), v[ch].clone())?;
                    c.next(&i, &o).map(drop)
                })
            };
            (what, g, Error::ChannelValue)
        }
        20 => {
            // a wrong number of value lists
            let rig = Rig::gen(r, &Opts::default().n(1, 8));
            let n = loop {
                let n = r.below(12);
                if n != rig.slots.len() {
                    break n;
                }
            };
            let mods: Vec<_> = rig.slots.iter().map(|s| s.kind.build(&s.params)).collect();
            let cfg = rig.config();
            let offsets = offsets_of_process_data(&cfg.offsets);
            let values: Vec<Vec<ChannelValue>> = (0..n)
                .map(|i| {
                    let s = &rig.slots[i % rig.slots.len()];
                    (0..s.kind.channels()).map(|ch| gen_req(s.kind, &s.params, ch, r, lits)).collect()
                })
                .collect();
            let what = format!("{n} value lists for {}", rig.show());
            let g = mods.into_iter().collect::<Result<Vec<_>, _>>().and_then(|mods| {
                let infos: Vec<_> = mods.iter().zip(&offsets).map(|(m, o)| (&**m, o)).collect();
                process_output_values(&infos, &values).map(drop)
            });
            (what, g, Error::ChannelValue)
        }
        21 => {
            // lists of the configuration which do not fit together
            let rig = Rig::gen(r, &Opts::default().n(1, 8));
            let mut cfg = rig.config();
            let (what, want) = match r.below(4) {
                0 => {
                    cfg.params.pop();
                    ("a missing parameter block", Error::BufferLength)
                }
                1 => {
                    cfg.params.push(vec![]);
                    ("a surplus parameter block", Error::BufferLength)
                }
                2 => {
                    let n = r.below(cfg.offsets.len());
                    cfg.offsets.truncate(n);
                    ("missing offsets", Error::ModuleOffset)
                }
                _ => {
                    for _ in 0..r.range(1, 4) {
                        cfg.offsets.push(0xFFFF);
                    }
                    ("surplus offsets", Error::ModuleOffset)
                }
            };
            (format!("{what} of {}", rig.show()), Coupler::new(&cfg).map(drop), want)
        }
        22 => {
            // gaps between the output areas, or areas which overlap
            let rig = loop {
                let rig = Rig::gen(r, &Opts { absent: 0, ..Opts::default() }.n(1, 12));
                if !rig.out_slots().is_empty() {
                    break rig;
                }
            };
            let mut cfg = rig.config();
            let at = *r.pick(&rig.out_slots());
            let by = 16 * r.range(1, 8) as u16;
            // the area begins some registers later
            let mut first = true;
            for s in at..rig.slots.len() {
                if cfg.offsets[2 * s] != 0xFFFF && (first || rig.slots[s].out_len() > 0) {
                    first = false;
                    cfg.offsets[2 * s] += by;
                }
            }
            let i = words_of(&rig.gen_input(r, lits));
            // every layout can decode zeros
            let o = vec![0; rig.out_size / 2 + 300];
            let g = Coupler::new(&cfg).and_then(|mut c| c.next(&i, &o).map(drop));
            (format!("a gap of {by} bits before module {at} of {}", rig.show()), g, Error::ModuleOffset)
        }
        _ => {
            // a value of a wrong type in the list of a module
            let k = loop {
                let k = any_kind(r);
                if k.has_out() {
                    break k;
                }
            };
            let p = k.gen_params(r);
            let mut v: Vec<_> = (0..k.channels()).map(|ch| gen_req(k, &p, ch, r, lits)).collect();
            let at = r.below(v.len());
            v[at] = loop {
                let v = super::values::any_value(r, lits);
                if !well_typed(k, &v) {
                    break v;
                }
            };
            let what = format!("{k:?} with {v:?}");
            let g = k.build(&p).and_then(|m| m.process_output_values(&v).map(drop));
            (what, g, Error::ChannelValue)
        }
    }
}

pub fn c25() -> Check {
    Check {
        rule: "a case is one failing call of a failure class of the public interface with random operands, or one error value and its message",
        assumptions: &[],
        campaigns: vec![
            Campaign::random("failures", "24 failure classes with random operands", 96_000, |c| {
                let which = c.idx as usize % 24;
                let (what, got, want) = failing_call(&mut c.rng, &c.cx.lits, which);
                match got {
                    Ok(()) => fail!("{what}: expected {want:?}, but it succeeded"),
                    Err(e) => {
                        ensure!(e == want, "{what}: expected {want:?}, got {e:?}");
                        check_msg(&e)?;
                        c.obs.count(&format!("class {which:02}: {e:?}"), 1);
                    }
                }
                c.obs.eval(1);
                c.obs.case_hash(crate::rng::fnv(what.as_bytes()) ^ which as u64);
                c.obs.sample(|| format!("{what}: {want:?}"));
                Ok(())
            }),
            Campaign::all("messages", "the message of every error kind", 1, |c| {
                let all = [
                    Error::UnknownModule,
                    Error::UnknownCategory,
                    Error::BufferLength,
                    Error::SequenceNumber,
                    Error::DataLength,
                    Error::RegisterCount,
                    Error::ChannelParameter,
                    Error::ChannelValue,
                    Error::ModuleOffset,
                    Error::Address,
                ];
                let mut seen = std::collections::HashSet::new();
                for e in all {
                    check_msg(&e)?;
                    ensure!(seen.insert(e.to_string()), "ambiguous message {e}");
                    c.obs.eval(1);
                    c.obs.distinct(1);
                }
                Ok(())
            }),
            Campaign::random("io", "I/O errors with arbitrary text", 2000, |c| {
                let n = match c.rng.below(20) {
                    0 => 0,
                    1 => *c.rng.pick(&[100, 127, 128, 129, 255, 256, 257, 1000, 5000, 70_000]),
                    _ => c.rng.below(40),
                };
                let text = String::from_utf8_lossy(&c.rng.bytes(n)).into_owned();
                use std::io::ErrorKind as K;
                let kinds = [
                    K::Other, K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted,
                    K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::WouldBlock,
                    K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::Interrupted, K::Unsupported,
                    K::UnexpectedEof, K::OutOfMemory, K::StorageFull, K::HostUnreachable, K::NetworkDown, K::ResourceBusy,
                ];
                let kind = kinds[c.idx as usize % kinds.len()];
                let io = std::io::Error::new(kind, text.clone());
                let e = Error::from(io);
                ensure!(e == Error::Io(text.clone()), "the I/O error {kind:?} {text:?} became {e:?}");
                check_msg(&e)?;
                // errors without an own text
                let io = std::io::Error::from(kind);
                let s = io.to_string();
                let e = Error::from(io);
                ensure!(e == Error::Io(s.clone()), "the I/O error {kind:?} became {e:?} instead of {s:?}");
                check_msg(&e)?;
                let os = std::io::Error::from_raw_os_error((c.idx % 134) as i32);
                let s = os.to_string();
                ensure!(Error::from(os) == Error::Io(s.clone()), "the I/O error {s:?} lost its text");
                c.obs.eval(2);
                c.obs.case_hash(crate::rng::fnv(text.as_bytes()));
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C26

pub fn c26() -> Check {
    Check {
        rule: "a case is one bit address, one offset table, one module list or one register image; addresses are enumerated",
        assumptions: &["parameter addresses are judged for at most 64 modules, the maximum of a station"],
        campaigns: vec![
            Campaign::all("addresses", "all bit addresses: split, merge and round trip", 64, |c| {
                for a in (c.idx as u16) << 10..=(c.idx as u16) << 10 | 0x3FF {
                    let (reg, bit) = to_register_address(a);
                    ensure!(reg == a / 16 && bit == usize::from(a % 16), "{a:#x} is register {reg:#x}, bit {bit}");
                    let b = to_bit_address(reg, bit);
                    ensure!(b == a, "{a:#x} becomes {b:#x}");
                    c.obs.eval(2);
                    c.obs.distinct(1);
                }
                Ok(())
            }),
            Campaign::random("offsets", "random offset tables", 40_000, |c| {
                let n = match c.rng.below(2000) {
                    0 => c.rng.below(140_000),
                    1..50 => c.rng.below(2100),
                    _ => c.rng.below(140),
                };
                let w: Vec<u16> = (0..n)
                    .map(|_| if c.rng.chance(1, 3) { *c.rng.pick(&[0xFFFF, 0xFFFE, 0x8000, 0, 0x7FFF]) } else { c.rng.u16() })
                    .collect();
                let got = offsets_of_process_data(&w);
                ensure!(got.len() == n / 2, "{n} registers are {} offsets", got.len());
                let opt = |x: u16| (x != 0xFFFF).then_some(x);
                for (i, g) in got.iter().enumerate() {
                    let want = ModuleOffset { output: opt(w[2 * i]), input: opt(w[2 * i + 1]) };
                    ensure!(*g == want, "the offset registers {:#x} {:#x} are {g:?}", w[2 * i], w[2 * i + 1]);
                }
                c.obs.eval(1);
                if n > 1 {
                    c.obs.case_hash(crate::rng::fnv(&bytes_of(&w)));
                }
                Ok(())
            }),
            Campaign::random("module lists", "register images of module lists, with unknown identifiers and odd lengths", 40_000, |c| {
                let all: Vec<(ModuleType, u32)> = types().into_iter().filter_map(|t| t.2.map(|i| (t.0, i))).collect();
                let n = match c.rng.below(1000) {
                    0 => c.rng.below(70_000),
                    1..5 => c.rng.below(2000),
                    _ => c.rng.below(66),
                };
                let mut w = vec![];
                let mut want = vec![];
                let mut known = true;
                for _ in 0..n {
                    let (t, mut id) = c.rng.pick(&all).clone();
                    if c.rng.chance(1, 300) {
                        id = match c.rng.below(4) {
                            0 => 0,
                            1 => 0xFFFF_FFFF,
                            2 => id.rotate_left(16),
                            _ => id ^ 1 << c.rng.below(32),
                        };
                    }
                    match all.iter().find(|x| x.1 == id) {
                        Some(x) => want.push(x.0.clone()),
                        None => {
                            known = false;
                            want.push(t);
                        }
                    }
                    w.push((id >> 16) as u16);
                    w.push(id as u16);
                }
                let odd = c.rng.chance(1, 8);
                if odd {
                    if c.rng.bool() || w.is_empty() {
                        w.push(c.rng.u16());
                    } else {
                        w.pop();
                    }
                }
                let got = module_list_from_registers(&w);
                match got {
                    Ok(v) => ensure!(!w.is_empty() && !odd && known && v == want, "{w:x?} is the module list {v:?}, expected {want:?}"),
                    Err(Error::RegisterCount) => ensure!(w.is_empty() || odd, "{w:x?}: number of registers rejected"),
                    Err(Error::UnknownModule) => ensure!(!known && !odd, "{w:x?}: unknown module reported"),
                    Err(e) => fail!("{w:x?}: {e:?}"),
                }
                // Another order of the same modules, and the list once more.
                if n > 1 && n < 2000 && known && !odd {
                    let (i, j) = (c.rng.below(n), c.rng.below(n));
                    let (mut w2, mut want2) = (w.clone(), want.clone());
                    want2.swap(i, j);
                    w2.swap(2 * i, 2 * j);
                    w2.swap(2 * i + 1, 2 * j + 1);
                    for (w, want) in [(&w2, &want2), (&w, &want)] {
                        match module_list_from_registers(w) {
                            Ok(v) => ensure!(v == *want, "{w:x?} is the module list {v:?}, expected {want:?}"),
                            Err(e) => fail!("{w:x?}: {e:?}"),
                        }
                    }
                }
                c.obs.eval(1);
                if n > 0 {
                    c.obs.case_hash(crate::rng::fnv(&bytes_of(&w)));
                    c.obs.count("longest list", 0);
                }
                Ok(())
            }),
            Campaign::random("parameter addresses", "random stations of up to 64 supported modules", 20_000, |c| {
                let n = c.rng.below(65);
                let ks: Vec<Kind> = (0..n).map(|_| *c.rng.pick(&KINDS)).collect();
                let list: Vec<ModuleType> = ks.iter().map(|k| k.ty()).collect();
                let got = param_addresses_and_register_counts(&list);
                ensure!(got.len() == n, "{} parameter blocks for {n} modules", got.len());
                for (i, g) in got.iter().enumerate() {
                    let want = (0xC000 + 256 * i as u16, ks[i].fields().len() as u16);
                    ensure!(*g == want, "parameter block of module {i} {:?}: {g:x?} instead of {want:x?}", ks[i]);
                }
                c.obs.eval(1);
                if n > 0 {
                    c.obs.case_hash(crate::rng::fnv(format!("{ks:?}").as_bytes()));
                    c.obs.sample(|| format!("{n} modules: {:x?}", got.last()));
                }
                Ok(())
            }),
            Campaign::all("constants", "the documented register addresses, and register counts of further digital input modules", 1, |c| {
                let want = [
                    ("packed process input data", ADDR_PACKED_PROCESS_INPUT_DATA, 0x0000),
                    ("packed process output data", ADDR_PACKED_PROCESS_OUTPUT_DATA, 0x0800),
                    ("process output length", ADDR_PROCESS_OUTPUT_LEN, 0x1010),
                    ("process input length", ADDR_PROCESS_INPUT_LEN, 0x1011),
                    ("coupler id", ADDR_COUPLER_ID, 0x1000),
                    ("coupler status", ADDR_COUPLER_STATUS, 0x100C),
                    ("module count", ADDR_CURRENT_MODULE_COUNT, 0x27FE),
                    ("module list", ADDR_CURRENT_MODULE_LIST, 0x2A00),
                    ("module offsets", ADDR_MODULE_OFFSETS, 0x2B00),
                    ("module parameters", ADDR_MODULE_PARAMETERS, 0xC000),
                ];
                for (what, got, w) in want {
                    ensure!(got == w, "address of the {what}: {got:#x} instead of {w:#x}");
                    c.obs.eval(1);
                    c.obs.distinct(1);
                }
                for (t, n) in [(ModuleType::UR20_4DI_P_3W, 4), (ModuleType::UR20_8DI_P_3W, 8)] {
                    ensure!(t.param_register_count() == n, "{t:?}: {} parameter registers", t.param_register_count());
                    c.obs.eval(1);
                }
                Ok(())
            }),
        ],
    }
}
