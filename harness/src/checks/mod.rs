pub mod copies;
pub mod ident;
pub mod process;
pub mod robust;
pub mod serial;
pub mod values;

use crate::core::Check;

pub fn get(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => serial::c01(),
        "C02" => serial::c02(),
        "C03" => serial::c03(),
        "C04" => serial::c04(),
        "C05" => serial::c05(),
        "C06" => process::c06(),
        "C07" => process::c07(),
        "C08" => process::c08(),
        "C09" => process::c09(),
        "C10" => process::c10(),
        "C11" => values::c11(),
        "C12" => values::c12(),
        "C13" => values::c13(),
        "C14" => values::c14(),
        "C15" => values::c15(),
        "C16" => values::c16(),
        "C17" => ident::c17(),
        "C18" => ident::c18(),
        "C19" => ident::c19(),
        "C20" => robust::c20(),
        "C21" => process::c21(),
        "C22" => process::c22(),
        "C23" => robust::c23(),
        "C24" => values::c24(),
        "C25" => ident::c25(),
        "C26" => ident::c26(),
        "C27" => robust::c27(),
        "C28" => copies::c28(),
        _ => return None,
    })
}
