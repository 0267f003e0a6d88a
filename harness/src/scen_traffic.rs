//! C02, C03, C04, C16, C19: programs of traffic, checked offline.
use crate::traffic::*;
use crate::util::*;

pub fn multicast(seed: u64) {
    let mut r = Rng::of(&[seed, 2]);
    let plan = Plan {
        peers: r.range(0, 3),
        eps: r.range(2, 9),
        threads: r.range(1, 5),
        n: r.range(5, 60) as u32,
        uni_pct: *r.pick(&[0, 0, 10]),
        depth: r.range(1, 4) as u32,
        rounds: r.range(1, 5) as u32,
        turnover: true,
        jumps: crate::shim::loaded(),
        ..Plan::default()
    };
    run(seed, &plan);
}

pub fn unicast(seed: u64) {
    let mut r = Rng::of(&[seed, 3]);
    let plan = Plan {
        peers: r.range(0, 3),
        eps: r.range(2, 9),
        threads: r.range(1, 5),
        n: r.range(5, 60) as u32,
        uni_pct: *r.pick(&[100, 100, 80]),
        depth: r.range(0, 3) as u32,
        rounds: r.range(1, 5) as u32,
        turnover: true,
        jumps: crate::shim::loaded(),
        ..Plan::default()
    };
    run(seed, &plan);
}

/// Many endpoints on one bus.
pub fn crowd(seed: u64) {
    let mut r = Rng::of(&[seed, 2, 2]);
    let plan = Plan {
        peers: r.range(1, 4),
        eps: *r.pick(&[35, 40, 70, 140, 270, 35, 40, 70, 140, 1100]),
        threads: r.range(2, 4),
        n: r.range(3, 15) as u32,
        uni_pct: *r.pick(&[0, 50, 100]),
        depth: r.range(0, 2) as u32,
        rounds: r.range(1, 3) as u32,
        turnover: true,
        jumps: crate::shim::loaded(),
        ..Plan::default()
    };
    let plan = Plan { eps: if many_fds() < 10_000 { plan.eps.min(270) } else { plan.eps }, ..plan };
    let n = plan.eps;
    run(seed, &plan);
    OUT.count("crowds", 1);
    OUT.max("crowd", n);
}

/// Very many messages over the same connections.
pub fn long_haul(seed: u64) {
    let mut r = Rng::of(&[seed, 4, 4]);
    let n = r.range(66_000, 70_000) as u32;
    let plan = Plan {
        peers: r.range(1, 2),
        eps: 2,
        threads: r.range(1, 2),
        n,
        uni_pct: *r.pick(&[0, 30]),
        depth: 0,
        lens: vec![0, 8],
        delays: false,
        spice: false,
        ..Plan::default()
    };
    run(seed, &plan);
    OUT.max("messages_of_one_sender", n as u64);
}

/// Thousands of messages in a small world.
pub fn haul(seed: u64) {
    let mut r = Rng::of(&[seed, 4, 5]);
    let plan = Plan {
        peers: r.range(0, 2),
        eps: r.range(3, 6),
        threads: r.range(2, 4),
        n: r.range(1500, 6000) as u32,
        uni_pct: *r.pick(&[0, 50, 100]),
        depth: 1,
        lens: vec![0, 8, 300],
        ttls_ms: vec![0],
        delays: false,
        ..Plan::default()
    };
    run(seed, &plan);
    OUT.max("messages_of_one_sender", plan.n as u64);
}

/// Endpoints that have much in common.
pub fn common_order(seed: u64) {
    let mut r = Rng::of(&[seed, 28]);
    let plan = Plan {
        peers: r.range(1, 3),
        eps: r.range(3, 7),
        threads: r.range(3, 8),
        n: r.range(20, 150) as u32,
        uni_pct: *r.pick(&[0, 0, 20]),
        depth: r.below(2) as u32,
        lens: r.pick(&[vec![0, 8], vec![0, 700, 9000], vec![0, 60_000]]).clone(),
        ttls_ms: vec![0, 0, 1000],
        gap_us: *r.pick(&[0, 20, 200]),
        rx_delay_us: *r.pick(&[0, 0, 100]),
        churn: r.pct(20),
        rounds: r.range(1, 3) as u32,
        turnover: true,
        one_order: true,
        ..Plan::default()
    };
    run(seed, &plan);
}

pub fn load(seed: u64) {
    let mut r = Rng::of(&[seed, 4]);
    let plan = Plan {
        peers: r.range(0, 3),
        eps: r.range(1, 5),
        threads: r.range(3, 10),
        n: r.range(100, 400) as u32,
        uni_pct: *r.pick(&[0, 30, 50]),
        depth: 1,
        lens: r
            .pick(&[vec![0, 8], vec![100, 3000], vec![10, 60_000], vec![16_000]])
            .clone(),
        rx_delay_us: *r.pick(&[0, 50, 500]),
        delays: r.pct(50),
        faults: *r.pick(&[0, 0, 2, 10]),
        ..Plan::default()
    };
    run(seed, &plan);
}

pub fn churn(seed: u64) {
    let mut r = Rng::of(&[seed, 16]);
    let plan = Plan {
        peers: r.range(1, 2),
        eps: r.range(2, 5),
        threads: r.range(2, 4),
        n: r.range(100, 300) as u32,
        uni_pct: *r.pick(&[0, 30, 60]),
        depth: 2,
        gap_us: *r.pick(&[0, 20, 100]),
        churn: true,
        rounds: r.range(1, 3) as u32,
        turnover: true,
        jumps: crate::shim::loaded(),
        ..Plan::default()
    };
    run(seed, &plan);
}

pub fn signals(seed: u64) {
    let mut r = Rng::of(&[seed, 19]);
    let plan = Plan {
        peers: r.range(1, 2),
        eps: r.range(3, 6),
        threads: r.range(2, 4),
        n: r.range(60, 150) as u32,
        uni_pct: *r.pick(&[0, 30, 60]),
        depth: 2,
        lens: r.pick(&[vec![0, 64], vec![2000, 30_000]]).clone(),
        rx_delay_us: *r.pick(&[0, 200]),
        storm: Some(*r.pick(&[50, 200, 1000])),
        faults: *r.pick(&[0, 0, 10, 100]),
        ..Plan::default()
    };
    run(seed, &plan);
}
