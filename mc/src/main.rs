mod beat;
mod chroma;
mod cli;
mod conf;
mod core;
mod key;
mod e2e;
mod legacy;
mod novelty;
mod onset;
mod pipe;
mod pre;
mod purity;
mod ser;
mod stages;
mod tempo;
use crate::core::*;

type Check = (&'static str, fn(&Ctx));
const CHECKS: &[Check] = &[("P01", purity::p01), ("P02", pipe::p02), ("P03", pipe::p03), ("P04", pipe::p04), ("P05", pre::p05), ("P06", pre::p06), ("P07", pre::p07), ("P08", chroma::p08), ("P09", onset::p09), ("P10", onset::p10), ("P11", legacy::p11), ("P12", tempo::p12), ("P13", tempo::p13), ("P14", beat::p14), ("P15", beat::p15), ("P16", chroma::p16), ("P17", key::p17), ("P18", key::p18), ("P19", conf::p19), ("P20", onset::p20), ("P21", beat::p21), ("P22", key::p22), ("P23", novelty::p23), ("P24", chroma::p24), ("P25", ser::p25), ("P26", e2e::p26), ("P31", cli::p31)];

#[global_allocator]
static ALLOC: purity::Alloc = purity::Alloc;

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "--p01" {
        std::process::exit(purity::child(&a[2..]));
    }
    if a.len() == 2 && a[1] == "--keys" {
        use stratum_dsp::analysis::result::Key;
        for t in 0..12u32 {
            for (m, k) in [Key::Major(t), Key::Minor(t)].iter().enumerate() {
                println!("{}\t{}\t{}\t{}", t, m, k.name(), k.numerical());
            }
        }
        return;
    }
    if a.len() < 4 {
        eprintln!("usage: mc <property> <quick|thorough> <verif root>");
        std::process::exit(2);
    }
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    for (id, f) in CHECKS {
        if *id == a[1] {
            let ctx = Ctx::new(id, tier, a[3].clone());
            f(&ctx);
            std::process::exit(ctx.finish());
        }
    }
    eprintln!("unknown property {}", a[1]);
    std::process::exit(2);
}
