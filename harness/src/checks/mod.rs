use crate::mon::Ctx;

mod building;
mod circuit;
mod encodings;
mod encryption;
mod keys;
mod ledger;
pub mod misc;
mod notes;
mod proofs;
mod robust;

pub fn find(id: &str) -> Option<fn(&Ctx)> {
    Some(match id {
        "C02" => building::c02,
        "C03" => building::c03,
        "C04" => building::c04,
        "C10" => encryption::c10,
        "C11" => encryption::c11,
        "C01" => proofs::c01,
        "C05" => proofs::c05,
        "C08" => proofs::c08,
        "C09" => proofs::c09,
        "C23" => proofs::c23,
        "C12" => keys::c12,
        "C17" => keys::c17,
        "C14" => notes::c14,
        "C15" => notes::c15,
        "C16" => notes::c16,
        "C13" => encodings::c13,
        "C18" => misc::c18,
        "C19" => misc::c19,
        "C20" => robust::c20,
        "C24" => ledger::c24,
        "C21" => misc::c21,
        "C22" => misc::c22,
        "C06" => circuit::c06,
        "C07" => circuit::c07,
        _ => return None,
    })
}
