//! Runs the model based container monitors inside of the undefined behaviour interpreter Miri.
//! The containers are taken from /repo's working tree file by file because the engine's pinned compiler has no Miri.
#![allow(warnings)]
pub mod datastr {
    #[path = "/repo/engine/src/datastr/clearlist_vector.rs"]
    pub mod clearlist_vector;
    #[path = "/repo/engine/src/datastr/heap.rs"]
    pub mod heap;
    #[path = "/repo/engine/src/datastr/index_heap.rs"]
    pub mod index_heap;
    #[path = "/repo/engine/src/datastr/rank_select_map.rs"]
    pub mod rank_select_map;
    #[path = "/repo/engine/src/datastr/timestamped_vector.rs"]
    pub mod timestamped_vector;
    pub mod graph {
        pub type NodeId = u32;
        pub type EdgeId = u32;
        pub type Weight = u32;
        pub const INFINITY: Weight = u32::MAX / 2;
    }
}
pub mod util {
    #[path = "/repo/engine/src/util/in_range_option.rs"]
    pub mod in_range_option;
}
#[path = "/repo/engine/src/io.rs"]
pub mod io;

mod engine {
    pub use crate::{datastr, util};
}
#[path = "../../harness/src/dsmodel.rs"]
mod dsmodel;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
}

/// arguments: group seed cases
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (group, seed, cases): (&str, u64, u64) = (&a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut events = std::collections::BTreeMap::<String, u64>::new();
    for case in 0..cases {
        println!("case {}", case);
        let mut rng = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ (case << 20));
        let mut ev = |e: &str| *events.entry(e.to_owned()).or_default() += 1;
        let res = match (group, case % 2) {
            ("queues", 0) => dsmodel::index_heap(&mut rng, &mut ev, 14, 90),
            ("queues", _) => dsmodel::bag_heap(&mut rng, &mut ev, 20, 60),
            (_, 0) => dsmodel::resettable(&mut rng, &mut ev, 20, 40),
            (_, _) => dsmodel::bits(&mut rng, &mut ev, 700, 40),
        };
        if let Err(e) = res {
            println!("oracle: {}", e);
            std::process::exit(1);
        }
    }
    for (e, n) in events {
        println!("event {} {}", e, n);
    }
    println!("done");
}
