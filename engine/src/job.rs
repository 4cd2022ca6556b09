//! One analysis job per process; the result is written as JSON.
use crate::expr::*;
use crate::interp::*;
use crate::ob::*;
use crate::{ck_kernel, dev};

const NEEDS_ALL: [&str; 12] = ["kernel-value", "pack-content", "pack-fills", "pack-padding", "pack-returns", "kernel-on-every-cpu", "startup-returns", "thread-count-range", "thread-count-setting", "thread-count-default", "setting-value", "setting-rejected"];

pub fn run(tcx: Tcx, job: &str) -> Rep {
    let mut rep = Rep { job: job.into(), hints: Hints::new(&[4, 8]), ..Default::default() };
    let parts: Vec<&str> = job.split('|').collect();
    match parts[0] {
        "kernel" => {
            let an = An::new(tcx);
            let Some(tr) = an.kernel_trait() else { rep.push(&["*"], "anchor", "GemmKernel", "", St::Open, "kernel trait not found".into(), String::new()); return rep };
            for (n, t) in dev::impls(tcx, tr) {
                if n != parts[1] { continue; }
                let Some(ki) = ck_kernel::kinfo(tcx, &n, t) else { rep.push(&["*"], "anchor", &n, "", St::Open, "kernel parameters not constant".into(), String::new()); continue };
                rep.key = ki.key();
                ck_kernel::check_kernel(tcx, &ki, &mut rep);
                for a in [true, false] { crate::ck_pack::check_pack(tcx, &ki, a, &mut rep); }
                for (k, v) in [("mr", ki.mr), ("nr", ki.nr), ("esz", ki.esz), ("comps", ki.comps), ("masked", ki.masked as i128), ("align", ki.align), ("mc", ki.kmc), ("kc", ki.kkc), ("nc", ki.knc)] { rep.facts.insert(k.into(), v.to_string()); }
            }
        }
        "entry" => {
            let picks: Vec<i128> = parts.get(2).map_or(vec![], |s| s.split(',').filter_map(|x| x.parse().ok()).collect());
            let level = parts.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            crate::ck_macro::check_entry(tcx, parts[1], &picks, level, parts.get(4).cloned(), &mut rep);
        }
        "registry" => crate::ck_misc::registry(tcx, parts.get(1).cloned().unwrap_or("sgemm"), &mut rep),
        "parser" => crate::ck_misc::parser(tcx, &mut rep),
        "list" => {
            let an = An::new(tcx);
            if let Some(tr) = an.kernel_trait() { for (n, t) in dev::impls(tcx, tr) { let k = ck_kernel::kinfo(tcx, &n, t).map_or(String::new(), |k| k.key()); rep.facts.insert(format!("kernel {}", n), k); } }
            for e in ["sgemm", "dgemm", "cgemm", "zgemm"] { if let Some(l) = crate::ck_macro::cpu_list(tcx, e) { rep.facts.insert(format!("entry {}", e), l.join("|")); } }
            for f in rustc_public::local_crate().fn_defs() { use rustc_public::CrateDef; rep.facts.insert(format!("fn {}", f.name()), String::new()); }
        }
        _ => rep.push(&["*"], "anchor", job, "", St::Open, "unknown job".into(), String::new()),
    }
    // what rests on the absence of an effect cannot be refuted from an incomplete record of effects
    if rep.incomplete { for o in rep.obs.iter_mut() { if o.st == St::Refuted && NEEDS_ALL.contains(&o.rule.as_str()) { o.st = St::Open; } } }
    let _ = ZERO;
    rep
}
