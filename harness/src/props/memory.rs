//! C29: no case of any other property misuses memory (the harness is built with AddressSanitizer for this
//! check, see run.sh) or leaves memory behind.
use crate::engine::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "A case is a case of one of the other properties' generators (exchanges, attacks, damaged messages, custom mechanisms with scripted requests, faults, GSS-API contexts), run in a build with AddressSanitizer and then repeated; only memory is judged here. Non-trivial: it is by the rule of the property it belongs to.",
        assumptions: &["memory that one thread takes and another gives back is not followed", "the standard library's own code is not instrumented"],
        suites: vec![suite("every-suite", every, 120_000, 1_500_000)],
        expect_labels: &[],
    }]
}

/// Not run here: builds of their own, threads, and suites whose cases take long.
const LEFT_OUT: [&str; 3] = ["C28", "C29", "C23"];

fn suites() -> &'static Vec<(&'static str, Suite)> {
    static S: OnceLock<Vec<(&'static str, Suite)>> = OnceLock::new();
    S.get_or_init(|| {
        let all = super::all().into_iter().filter(|p| !LEFT_OUT.contains(&p.id));
        all.flat_map(|p| p.suites.into_iter().map(move |s| (p.id, s))).filter(|(_, s)| !s.serial && s.name != "threads").collect()
    })
}

fn every(s: &mut Src) -> R {
    let all = suites();
    let (id, su) = &all[s.idx(all.len())];
    s.note(|| format!("a case of {id} {}", su.name));
    s.label(label(id));
    let (r, left) = nested(su.f, s);
    match r {
        Ok(Err(f)) | Err(f) if f.harness => return Err(f),
        _ => {}
    }
    if left > 0 {
        return fail("leak", format!("every repetition of this case of {id} {} leaves at least {left} bytes behind", su.name));
    }
    Ok(())
}

fn label(id: &'static str) -> &'static str {
    thread_local! {
        static L: RefCell<BTreeMap<&'static str, &'static str>> = const { RefCell::new(BTreeMap::new()) };
    }
    L.with(|l| *l.borrow_mut().entry(id).or_insert_with(|| Box::leak(format!("case of {id}").into_boxed_str())))
}
