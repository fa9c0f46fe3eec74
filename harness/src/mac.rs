/// Drive one query server through a history of queries and monitor every answer:
/// distance vs. the reference, node path validity and length.
#[macro_export]
macro_rules! drive {
    ($c:expr, $name:expr, $server:expr, $g:expr, $rows:expr, $qs:expr) => {{
        for &(s, t) in $qs.iter() {
            let exp = $rows[s as usize][t as usize];
            let mut res = QueryServer::query(&mut $server, Query { from: s, to: t });
            let got = res.distance().map(u64::from);
            ensure_eq!(got, exp, "{}: distance {}->{} on {}", $name, s, t, $g.describe());
            if let Some(d) = exp {
                let p = res.node_path();
                let p = p.ok_or_else(|| format!("{}: no path for found query {}->{}", $name, s, t))?;
                let p: Vec<u32> = p.into_iter().collect();
                oracle::check_path(&$g, &p, s, t, d).map_err(|e| format!("{}: {} on {}", $name, e, $g.describe()))?;
                if p.len() > 2 {
                    $c.verdict($name, Some($crate::hash64(&[$crate::hash_str($name), $crate::hash_u32s(&p), d])));
                } else {
                    $c.verdict($name, None);
                }
                if p.len() > 3 {
                    $c.sample(|| format!("{} {}->{} = {} via {:?} on {}", $name, s, t, d, p, $g.describe()));
                }
            } else {
                ensure!(res.node_path().is_none(), "{}: path for unreachable {}->{}", $name, s, t);
                $c.verdict("unreachable", None);
            }
        }
    }};
}
