//! C28: travel time profiles derived from speed profiles, compared with driving along the link.
use conversion::speed_profile_to_tt_profile;
use vh::*;

const P: u32 = 24 * 60 * 60 * 1000;

/// arrival when entering a link of `len` m at `t` ms, by driving
fn drive(speeds: &[(u32, u32)], len: u32, t: f64) -> f64 {
    let k = speeds.len() - 1;
    let mut day = (t / P as f64).floor();
    let tt = t - day * P as f64;
    let mut i = speeds[..k].iter().rposition(|s| s.0 as f64 <= tt).unwrap();
    let mut cur = t;
    let mut left = len as f64;
    loop {
        let end = day * P as f64 + speeds[i + 1].0 as f64;
        let v = speeds[i].1 as f64 / 3600.0; // m per ms
        if cur + left / v <= end {
            return cur + left / v;
        }
        left -= (end - cur) * v;
        cur = end;
        i += 1;
        if i == k {
            i = 0;
            day += 1.0;
        }
    }
}

fn speeds(c: &mut Case) -> R {
    let bucket = *c.rng.pick(&[300_000u32, 900_000, 3_600_000]);
    let nb = (P / bucket) as usize;
    let mut s: Vec<(u32, u32)> = Vec::new();
    let vmax = *c.rng.pick(&[10u64, 50, 130]) as usize;
    let vmin = *c.rng.pick(&[1usize, 5, 5, 8]);
    let style = c.rng.below(4);
    let mut v = vmin + c.rng.below(vmax);
    for i in 0..nb {
        let ch = match style {
            0 => true,
            1 => c.rng.chance(1, 3),
            2 => c.rng.chance(1, 30),
            _ => i % (nb / 4) == 0,
        };
        if i == 0 || ch {
            v = if style == 0 { (v + c.rng.below(15)).saturating_sub(7).max(vmin).min(vmax.max(vmin)) } else { vmin + c.rng.below(vmax) };
            if s.last().map(|x| x.1) != Some(v as u32) {
                s.push((i as u32 * bucket, v as u32));
            }
        }
    }
    if s.len() < 2 {
        s.push((P / 2, s[0].1 + 1));
    }
    s.push((P, s[0].1));
    let len = match c.rng.below(5) {
        0 => c.rng.range(1, 10),
        1 => c.rng.range(1, 300),
        2 => c.rng.range(1, 3000),
        3 => c.rng.range(1, 30_000),
        _ => 1 + s[c.rng.below(s.len())].1 as u64 * (bucket as u64 / 1000) * c.rng.range(100, 1000) / 3600,
    } as u32;
    // links which take longer than half a day are not roads
    let slow = s.iter().map(|x| drive(&s, len, x.0 as f64) - x.0 as f64).fold(0.0, f64::max);
    if slow > P as f64 / 2.0 {
        c.ev("skipped-too-slow", );
        return Ok(());
    }
    let prof = speed_profile_to_tt_profile(&s, len);
    let show = || format!("len {} speeds {:?} profile {:?}", len, &s, &prof);
    ensure!(prof.len() >= 2 && prof[0].0 == 0 && prof[prof.len() - 1].0 == P && prof[0].1 == prof[prof.len() - 1].1, "profile does not cover the day: {}", show());
    let crossed = (slow / bucket as f64).ceil() + 1.0;
    for w in prof.windows(2) {
        ensure!(w[0].0 < w[1].0, "times not increasing at {:?}: {}", w, show());
        ensure!(w[0].0 + w[0].1 <= w[1].0 + w[1].1, "overtaking possible at {:?}: {}", w, show());
    }
    // rounding: up to one metre lost per crossed change and one millisecond per division, driven at the slowest speed
    let vm = s.iter().map(|x| x.1).min().unwrap() as f64;
    let tol = 3.0 + (crossed + 1.0) * (3600.0 / vm) + 2.0 * crossed;
    let mut worst = 0.0f64;
    let mut probe = |t: f64, got: f64| -> R {
        let want = drive(&s, len, t) - t;
        worst = worst.max((want - got).abs());
        if (want - got).abs() > tol {
            return Err(format!("entering at {} takes {}, the profile says {} (tolerance {}): {}", t, want, got, tol, show()));
        }
        Ok(())
    };
    for w in prof.windows(2) {
        for k in 0..4 {
            let f = k as f64 / 4.0;
            let t = w[0].0 as f64 + f * (w[1].0 - w[0].0) as f64;
            probe(t, w[0].1 as f64 + f * (w[1].1 as f64 - w[0].1 as f64))?;
        }
    }
    c.ev(if slow > bucket as f64 { "longer-than-a-bucket" } else { "within-a-bucket" });
    if drive(&s, len, (P - bucket / 2) as f64) > P as f64 {
        c.ev("over-midnight");
    }
    if worst > tol / 2.0 {
        c.ev("rounding-over-half");
    }
    c.verdict("speed-profile", Some(hash64(&prof.iter().map(|x| x.0 as u64 * 7919 + x.1 as u64).collect::<Vec<_>>())));
    Ok(())
}

fn main() {
    main_loop(&[Prop { id: "C28", run: speeds }]);
}
