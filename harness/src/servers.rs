//! executable contracts shared by every query server

/// distances of a sequence of queries on one server equal the oracle's, whatever was asked before
#[macro_export]
macro_rules! check_dists {
    ($name:expr, $s:expr, $d:expr, $qs:expr) => {
        for (i, &(from, to)) in $qs.iter().enumerate() {
            let got = $s.query(rust_road_router::algo::Query { from, to }).distance();
            let want = $crate::oracle::opt($d[from as usize][to as usize]);
            if got != want {
                return Err(format!("{}: query {} -> {} (number {} on this server): got {:?}, shortest distance {:?}", $name, from, to, i, got, want));
            }
        }
    };
}
/// ... and the node path of every found query is a path of that length
#[macro_export]
macro_rules! check_node_paths {
    ($name:expr, $s:expr, $g:expr, $qs:expr) => {
        for (i, &(from, to)) in $qs.iter().enumerate() {
            let mut r = $s.query(rust_road_router::algo::Query { from, to });
            if let Some(len) = r.distance() {
                let p: Vec<u32> = r.node_path().unwrap().into_iter().map(|x| x as u32).collect();
                $g.check_path(&p, from, to, len).map_err(|e| format!("{}: query {} -> {} (number {} on this server): {}", $name, from, to, i, e))?;
                let again: Vec<u32> = r.node_path().unwrap().into_iter().map(|x| x as u32).collect();
                $crate::ensure_eq!(again, p, "{}: {} -> {}: path asked for a second time", $name, from, to);
            } else {
                $crate::ensure!(r.node_path().is_none(), "{}: a path without a distance", $name);
            }
        }
    };
}
