//! mc <property> [--replay <file>] : exhaustive exploration of bounded input and history spaces of
//! boostvoronoi against reference models. Tier from VERIF_TIER, seed from VERIF_SEED.
mod acc;
mod api;
mod big;
mod cert;
mod diag;
mod fam;
mod hist;
#[cfg(boostvoronoi_mc)]
mod hook;
mod input;
mod invar;
mod num;
mod points;
mod refpoint;
mod refseg;
mod run;
mod scale;
mod segs;
mod snap;
mod topo;
mod util;
use run::*;

fn main() {
    if std::env::var("MC_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    supervise(&prop);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let t = std::fs::read_to_string(&args[3]).expect("cannot read the replay file");
        Some(t.lines().find_map(|l| l.strip_prefix("case=")).expect("no case in the replay file").to_string())
    } else {
        None
    };
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&prop, tier, seed, only)));
    ctx.watchdog(60.0, 12000);
    match prop.as_str() {
        "P01" => diag::p01(ctx),
        "P02" => diag::p02(ctx),
        "P03" => diag::p03(ctx),
        "P04" => diag::p04(ctx),
        "P05" => invar::p05(ctx),
        "P06" => invar::p06(ctx),
        "P07" => hist::p07(ctx),
        "P08" => api::p08(ctx),
        "P09" => api::p09(ctx),
        "P10" => hist::p10(ctx),
        "P11" => api::p11(ctx),
        "P12" => num::p12(ctx),
        "P13" => num::p13(ctx),
        "P14" => num::p14(ctx),
        "P15" => util::p15(ctx),
        "P16" => util::p16(ctx),
        "P17" => util::p17(ctx),
        "P18" => util::p18(ctx),
        "P20" => util::p20(ctx),
        #[cfg(boostvoronoi_mc)]
        "P21" => hook::p21(ctx),
        #[cfg(boostvoronoi_mc)]
        "P23" => hook::p23(ctx),
        "P22" => diag::p22(ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
