//! The checks, one per property.
use crate::run::Check;

mod common;
mod ops;
mod lits;
mod lits2;
mod names;
mod trees;
mod layout;
mod seqs;
mod kinds;
mod cli;
mod locs;
mod model;
mod source;
mod pure;
mod robust;
mod whole;

pub fn get(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => robust::c01(),
        "C02" => pure::c02(),
        "C03" => source::c03(),
        "C05" => source::c05(),
        "C24" => model::c24(),
        "C23" => cli::c23(),
        "C04" => locs::c04(),
        "C06" => kinds::c06(),
        "C07" => whole::c07(),
        "C08" => ops::c08(),
        "C09" => lits::c09(),
        "C10" => lits::c10(),
        "C11" => lits2::c11(),
        "C12" => lits2::c12(),
        "C13" => lits2::c13(),
        "C14" => names::c14(),
        "C15" => names::c15(),
        "C16" => names::c16(),
        "C17" => trees::c17(),
        "C18" => trees::c18(),
        "C19" => trees::c19(),
        "C20" => trees::c20(),
        "C21" => layout::c21(),
        "C22" => seqs::c22(),
        _ => return None,
    })
}

/// Entry points of helper processes.
pub fn helper(name: &str, args: &[String]) -> i32 {
    use crate::mon::*;
    match name {
        // Print what the parser does with each text.
        "tree" => {
            install_panic_hook();
            for a in args {
                let (o, _) = observe(&Entry::Program, a, "x.rb", CPU_LIMIT);
                println!("{:?}\n    {}", a, o.brief());
            }
            0
        }
        // What the parser returns for the calls on the standard input.
        "digest" => pure::helper(),
        "show" => source::show_helper(),
        // The text at the location of every node.
        "slices" => {
            for a in args {
                println!("{:?}", a);
                if let (Obs::Ok(r), _) = observe(&Entry::Program, a, "x.rb", CPU_LIMIT) {
                    crate::term::norm(&r.node).walk(&mut |n| {
                        let (s, e) = n.loc.unwrap_or((9999, 0));
                        println!("    {:30} {:?} {:?}", n.tag, n.loc, r.source_info.code.as_bytes().get(s..=e).map(String::from_utf8_lossy));
                    });
                }
            }
            0
        }
        _ => {
            eprintln!("no helper {}", name);
            2
        }
    }
}
