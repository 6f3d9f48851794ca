//! Judges a step against the reference model.
use crate::env::*;
use crate::world::*;
use refmodel::model::*;
use refmodel::ops::*;
use refmodel::elem::Ctx;
use subject::num::Num;

fn bits_eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

pub fn same_model(a: &MVec, b: &MVec) -> bool {
    a.cx == b.cx && a.fr == b.fr && bits_eq(a.delta, b.delta) && a.d.len() == b.d.len() && a.d.iter().zip(b.d.iter()).all(|(x, y)| bits_eq(*x, *y))
}

/// Class suffix and description
pub type Bad = (String, String);

/// what may be wrong with one register
fn judge_reg(e: &RegExp, pre: Option<&MVec>, post: Option<&MVec>, broken: bool) -> Option<(&'static str, String)> {
    if broken {
        return Some(("length", "the valid length exceeds the storage".to_string()));
    }
    match e {
        RegExp::Unspecified => None,
        RegExp::Same => match (pre, post) {
            (Some(a), Some(b)) => {
                if same_model(a, b) {
                    None
                } else {
                    Some(("changed", "must be unchanged".to_string()))
                }
            }
            _ => None,
        },
        RegExp::Invalid => match post {
            Some(v) => {
                if v.erroneous() {
                    None
                } else {
                    Some(("not-invalid", format!("must be marked as failed but has {} samples, delta {:?}", v.d.len(), v.delta)))
                }
            }
            None => Some(("lost", "the vector is gone".to_string())),
        },
        RegExp::Empty => match post {
            Some(v) => {
                if v.d.is_empty() {
                    None
                } else {
                    Some(("not-empty", format!("must be empty but has {} samples", v.d.len())))
                }
            }
            None => Some(("lost", "the vector is gone".to_string())),
        },
        RegExp::Val(x) => {
            let v = match post {
                Some(v) => v,
                None => return Some(("lost", "the vector is gone".to_string())),
            };
            if v.d.len() != x.v.len() {
                return Some(("length", format!("{} samples expected, got {}", x.v.len(), v.d.len())));
            }
            if v.cx != x.cx {
                return Some(("meta", format!("complex should be {}", x.cx)));
            }
            if v.fr != x.fr {
                return Some(("meta", format!("frequency domain should be {}", x.fr)));
            }
            if !x.delta.has(v.delta) {
                return Some(("meta", format!("delta {:?} isn't in [{:?}, {:?}]", v.delta, x.delta.lo, x.delta.hi)));
            }
            let mut bad = 0;
            let mut first = None;
            for (i, (y, iv)) in v.d.iter().zip(x.v.iter()).enumerate() {
                if !iv.has(*y) {
                    bad += 1;
                    if first.is_none() {
                        first = Some(i);
                    }
                }
            }
            if let Some(i) = first {
                let iv = &x.v[i];
                return Some((
                    "value",
                    format!("sample {} is {:?}, expected {:?} within {:?} ({} of {} wrong)", i, v.d[i], iv.mid(), iv.rad(), bad, v.d.len()),
                ));
            }
            None
        }
    }
}

pub struct Judge {
    pub ctx: Ctx,
    /// situations the documentation leaves open end in this
    pub unspecified: bool,
}

/// Compares an executed operation with the model. `pre`: state before.
pub fn judge(op: &Op, exp: &Exp, pre: &[Option<MVec>], post: &[Option<MVec>], broken: &[bool], obs: &Obs) -> Option<Bad> {
    let kname = name(op.k);
    let bad = |what: &str, d: String| Some((format!("{}:{}", what, kname), d));
    // the status
    match &exp.status {
        Status::Unspecified => {
            bump(C::unspecified, 1);
            if obs.status == PANICKED {
                bump(C::panics_documented, 1);
            }
        }
        Status::Ok => {
            if obs.status == PANICKED {
                return bad("panic", format!("panicked: {}", obs.panic));
            }
            if obs.status != 0 {
                return bad("status", format!("must succeed but returned {}", status_name(obs.status)));
            }
        }
        Status::Err(codes) => {
            bump(C::rejected, 1);
            if obs.status == PANICKED {
                return bad("panic", format!("panicked instead of returning an error: {}", obs.panic));
            }
            if obs.status == 0 {
                return bad("accepted", format!("must be rejected with {:?}", codes.iter().map(|c| reason_name(*c)).collect::<Vec<_>>()));
            }
            if !codes.contains(&obs.status) {
                return bad(
                    "code",
                    format!("rejected with {} instead of {:?}", status_name(obs.status), codes.iter().map(|c| reason_name(*c)).collect::<Vec<_>>()),
                );
            }
        }
    }
    // the registers
    for i in 0..post.len() {
        let e = exp.out.iter().find(|o| o.0 == i).map(|o| &o.1);
        let same = RegExp::Same;
        let mentioned = e.is_some();
        let e = e.unwrap_or(&same);
        if !mentioned && i == op.t && consuming(op.k) && obs.status == PANICKED {
            continue;
        }
        if let Some((what, d)) = judge_reg(e, pre[i].as_ref(), post[i].as_ref(), broken[i]) {
            let what = if mentioned {
                what.to_string()
            } else if i == op.t || op.others().contains(&i) {
                if obs.status > 0 {
                    "rejected-changed".to_string()
                } else {
                    "operand-changed".to_string()
                }
            } else {
                "foreign-changed".to_string()
            };
            return bad(&what, format!("r{}: {}", i, d));
        }
    }
    // returned values
    if obs.status == 0 {
        if let Some(ref r) = exp.rets {
            if r.len() != obs.rets.len() {
                return bad("returned-count", format!("{} values expected, got {}", r.len(), obs.rets.len()));
            }
            for (i, (e, x)) in r.iter().zip(obs.rets.iter()).enumerate() {
                if !e.has(*x) {
                    return bad("returned", format!("value {} is {:?}, expected {:?}; all {:?}", i, x, e, obs.rets));
                }
            }
        }
    }
    None
}

/// As `judge`, recognises the known deviations
pub fn judge_dev(op: &Op, exp: &Exp, pre: &[Option<MVec>], post: &[Option<MVec>], broken: &[bool], obs: &Obs, ctx: &Ctx) -> Option<Bad> {
    let mut bad = judge(op, exp, pre, post, broken, obs);
    if let Some((ref mut c, _)) = bad {
        if let Some((name, e)) = deviation(op, pre, ctx) {
            if judge(op, &e, pre, post, broken, obs).is_none() {
                *c = name.to_string();
            }
        }
    }
    bad
}

pub fn models<T: Num>(s: &[Option<Snap<T>>]) -> (Vec<Option<MVec>>, Vec<bool>) {
    (s.iter().map(|s| s.as_ref().map(|s| s.model())).collect(), s.iter().map(|s| s.as_ref().map(|s| s.broken).unwrap_or(false)).collect())
}

/// Executes one operation and judges it. Returns what was observed and the verdict.
pub fn step<T: Num, K: Kind<T>>(w: &mut World<T, K>, op: &Op, ctx: &Ctx) -> (Obs, Option<Bad>) {
    let (pre, sets, exp) = outside(|| {
        let pre = w.model();
        let sets: Vec<Option<Set>> = w.snaps.iter().map(|s| s.as_ref().map(|s| s.set)).collect();
        let exp = apply(op, &pre, ctx);
        (pre, sets, exp)
    });
    let obs = w.op(op);
    let bad = outside(|| {
        let (post, broken) = models(&w.snaps);
        bump(C::checked, 1);
        let mut bad = judge_dev(op, &exp, &pre, &post, &broken, &obs, ctx);
        if bad.is_none() {
            for i in 0..post.len() {
                if let (Some(a), Some(Some(b))) = (sets[i].as_ref(), w.snaps.get(i)) {
                    // a cloned vector takes over the settings
                    if *a != b.set && op.k != K_CLONE {
                        bad = Some((format!("settings:{}", name(op.k)), format!("r{}: multi core settings changed from {:?} to {:?}", i, a, b.set)));
                    }
                }
            }
        }
        if let Some((c, d)) = bad.take() {
            let pr: Vec<String> = std::iter::once(&op.t)
                .chain(op.others())
                .filter_map(|r| pre[*r].as_ref().map(|m| format!("r{} len {} {} {} delta {:?}", r, m.d.len(), if m.cx { "complex" } else { "real" }, if m.fr { "freq" } else { "time" }, m.delta)))
                .collect();
            bad = Some((c, format!("{}: {} (before: {}; {} worker threads)", op.show(), d, pr.join(", "), obs.kids.2)));
        }
        drop(post);
        bad
    });
    outside(|| {
        drop(pre);
        drop(exp);
        drop(sets);
        state(w.shape(op, &obs));
        digest(w.hash());
        digest(obs.status as u64);
        for r in obs.rets.iter() {
            digest(r.to_bits());
        }
    });
    (obs, bad)
}
pub const K_CLONE: refmodel::ops::K = refmodel::ops::K::CloneFrom;
