//! C01 meaning, C02 idempotence: every document of the shared grammars.
use crate::core::*;
use crate::{docs, norm, opts};

pub fn meaning(e: &Engine) {
    for d in docs::all(e.tier) {
        e.run(domain(d.name, d.rule, d.total, |i, r| {
            let Some((doc, spec)) = (d.make)(i) else { r.skipped += 1; return };
            r.case(&doc, &spec);
            let o = opts::make(&spec);
            let f = r.fmt(&doc, &o);
            r.nontrivial = f != doc;
            let punct = !spec.contains("plain");
            let case = spec.contains("sc=1");
            let fix = |m: String| if spec.contains("dl=text") { m.replace("code \"\"", "code \"text\"") } else { m };
            let m1 = fix(norm::meaning_modulo(&doc, punct, case));
            let m2 = fix(norm::meaning_modulo(&f, punct, case));
            r.traces += 1;
            if m1 != m2 {
                r.fail("meaning", &f, format!("meaning before:\n{m1}\nmeaning after:\n{m2}"));
            }
        }));
    }
}

pub fn idempotent(e: &Engine) {
    for d in docs::all(e.tier) {
        e.run(domain(d.name, d.rule, d.total, |i, r| {
            let Some((doc, spec)) = (d.make)(i) else { r.skipped += 1; return };
            r.case(&doc, &spec);
            let o = opts::make(&spec);
            let f = r.fmt(&doc, &o);
            r.nontrivial = f != doc;
            let g = r.fmt(&f, &o);
            r.traces += 1;
            if f != g {
                r.fail("idempotence", &format!("{f}\u{1e}{g}"), format!("first:\n{f}\nsecond:\n{g}"));
            }
        }));
    }
}
