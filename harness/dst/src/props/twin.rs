//! Executions which have to agree bit by bit.
use super::*;
use refmodel::model::MVec;
use simrt::rng::combine;

pub struct Step<T> {
    pub name: String,
    pub k: K,
    pub hash: u64,
    pub obs: Obs,
    pub snaps: Vec<Option<Snap<T>>>,
}

fn print<T: Num>(obs: &Obs, snaps: &[Option<Snap<T>>]) -> u64 {
    let mut x = obs.status as u64;
    for s in snaps.iter() {
        // the settings aren't part of the comparison
        x = combine(x, s.as_ref().map(|s| s.hash()).unwrap_or(1));
    }
    for r in obs.rets.iter() {
        x = combine(x, r.to_bits());
    }
    x
}

/// The vectors after an operation without what is unspecified: the samples growing adds
fn specified<T: Num>(op: &Op, pre: &[Option<MVec>], snaps: &[Option<Snap<T>>]) -> Vec<Option<Snap<T>>> {
    let mut v = snaps.to_vec();
    if matches!(op.k, K::Resize | K::ResizeB) {
        if let (Some(Some(a)), Some(Some(b))) = (pre.get(op.t), v.get_mut(op.t)) {
            if !b.broken {
                for x in b.d.iter_mut().skip(a.d.len()) {
                    *x = T::zero();
                }
            }
        }
    }
    v
}

pub fn record<T: Num>(op: &Op, obs: &Obs, pre: &[Option<MVec>], snaps: &[Option<Snap<T>>]) -> Step<T> {
    let snaps = &specified(op, pre, snaps)[..];
    Step { name: op.show(), k: op.k, hash: print(obs, snaps), obs: obs.clone(), snaps: snaps.to_vec() }
}

/// What differs between a step and its twin
pub fn differs<T: Num>(first: &Step<T>, op: &Op, obs: &Obs, pre: &[Option<MVec>], snaps: &[Option<Snap<T>>], calls: bool) -> Option<String> {
    let snaps = &specified(op, pre, snaps)[..];
    bump(C::comparisons, 1);
    if print(obs, snaps) == first.hash && (!calls || obs.calls == first.obs.calls) {
        return None;
    }
    let mut d = format!("{}: ", first.name);
    if first.obs.status != obs.status || first.obs.rets.len() != obs.rets.len() || first.obs.rets.iter().zip(obs.rets.iter()).any(|(a, b)| a.to_bits() != b.to_bits()) {
        d += &format!(
            "returned {} {:?} {} and then {} {:?} {}; ",
            status_name(first.obs.status),
            first.obs.rets,
            first.obs.panic,
            status_name(obs.status),
            obs.rets,
            obs.panic
        );
    }
    for (i, (a, b)) in first.snaps.iter().zip(snaps.iter()).enumerate() {
        match (a, b) {
            (Some(a), Some(b)) if a.hash() != b.hash() => {
                let k = a.d.iter().zip(b.d.iter()).position(|(x, y)| x.bits() != y.bits());
                d += &format!(
                    "r{} differs first at {:?} of {}/{}: {:?} {:?}, delta {:?} {:?}, complex {} {}, frequency {} {}; ",
                    i,
                    k,
                    a.d.len(),
                    b.d.len(),
                    k.map(|k| a.d[k]),
                    k.map(|k| b.d[k]),
                    a.delta,
                    b.delta,
                    a.cx,
                    b.cx,
                    a.fr,
                    b.fr
                );
            }
            (Some(_), None) | (None, Some(_)) => d += &format!("r{} exists only once; ", i),
            _ => (),
        }
    }
    if calls && obs.calls != first.obs.calls {
        d += &format!("{} calls of user functions and then {}; ", first.obs.calls, obs.calls);
    }
    Some(d + &format!("{} and {} worker threads", first.obs.kids.2, obs.kids.2))
}
