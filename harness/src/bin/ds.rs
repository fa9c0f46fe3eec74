//! Monitors of the elementary data structures.
use vh::*;
mod engine {
    pub use rust_road_router::{datastr, util};
}
#[path = "../dsmodel.rs"]
mod dsmodel;

fn run(c: &mut Case, name: &str, f: impl FnOnce(&mut Rng, &mut dyn FnMut(&str)) -> R) -> R {
    let mut evs: std::collections::BTreeMap<String, u64> = Default::default();
    let fp = c.rng.clone().u64();
    f(&mut c.rng, &mut |e| *evs.entry(e.to_owned()).or_default() += 1).map_err(|e| format!("{}: {}", name, e))?;
    for (e, k) in evs {
        c.evn(&e, k);
    }
    c.verdict(name, Some(hash64(&[fp])));
    Ok(())
}

fn c19(c: &mut Case) -> R {
    let big = c.rng.chance(1, 12);
    let (n, ops) = if big { (3000, 6000) } else { (24, 300) };
    run(c, "histories-indexed", |r, e| dsmodel::index_heap(r, e, n, ops))?;
    let (n, ops) = if big { (400, 1500) } else { (30, 300) };
    run(c, "histories-keeping", |r, e| dsmodel::bag_heap(r, e, n, ops))
}

fn c20(c: &mut Case) -> R {
    if c.idx == 3 {
        // one wrap around of the 32 bit timestamps
        run(c, "wrap-around", |r, e| {
            let early = r.u64() % 7;
            dsmodel::many_resets(r, e, (1 << 32) - early)
        })?;
    }
    let big = c.rng.chance(1, 10);
    run(c, "histories-resettable", |r, e| dsmodel::resettable(r, e, if big { 700 } else { 40 }, if big { 2000 } else { 300 }))?;
    let big = c.rng.chance(1, 10);
    run(c, "histories-bits", |r, e| dsmodel::bits(r, e, if big { 40000 } else { 1200 }, 200))
}

fn main() {
    main_loop(&[Prop { id: "C19", run: c19 }, Prop { id: "C20", run: c20 }]);
}
