//! Programs of messages over a bus that nobody disturbs, or that others join and leave.
use crate::model::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Plan {
    pub peers: u64,
    pub eps: u64,
    pub threads: u64,
    pub n: u32,
    pub uni_pct: u64,
    pub depth: u32,
    pub lens: Vec<u32>,
    pub ttls_ms: Vec<u64>,
    pub gap_us: u64,
    pub rx_delay_us: u64,
    pub churn: bool,
    pub rounds: u32,
    pub blocking_pct: u64,
    pub storm: Option<u64>,
    pub delays: bool,
    pub kill: bool,
    /// Endpoints leave and join between the rounds
    pub turnover: bool,
    /// The controller's clock is moved, so that it looks for those who have gone
    pub jumps: bool,
    /// So many of 1000 socket calls fail in a way that calls for another attempt
    pub faults: u64,
    pub one_order: bool,
    /// Some messages carry attachments, are long, wait long
    pub spice: bool,
}

impl Default for Plan {
    fn default() -> Plan {
        Plan {
            peers: 2,
            eps: 5,
            threads: 3,
            n: 60,
            uni_pct: 0,
            depth: 3,
            lens: vec![0, 1, 5, 64, 700],
            ttls_ms: vec![0, 0, 0, 1, 1000],
            gap_us: 0,
            rx_delay_us: 0,
            churn: false,
            rounds: 1,
            blocking_pct: 20,
            storm: None,
            delays: true,
            kill: true,
            turnover: false,
            jumps: false,
            faults: 0,
            one_order: false,
            spice: true,
        }
    }
}

pub struct Ran {
    pub w: World,
    pub hist: History,
}

pub fn run(seed: u64, plan: &Plan) -> Ran {
    let mut w = World::new(seed);
    let mut r = w.rng.fork();
    if plan.delays && r.pct(60) {
        crate::shim::set_delay(*r.pick(&[2, 10, 30]), *r.pick(&[50, 300, 1500]), seed);
    }
    let pool = pool(&mut r);
    w.twins_pct = *r.pick(&[0, 15, 40]);
    for _ in 0..plan.peers {
        let mut env = if plan.delays && r.pct(60) {
            vec![(
                "VH_DELAY",
                format!(
                    "{},{},{}",
                    r.pick(&[2, 10, 30]),
                    r.pick(&[50, 300, 1500]),
                    r.u64() >> 1
                ),
            )]
        } else {
            vec![]
        };
        if plan.faults > 0 {
            env.push(("VH_FAULT", format!("{},{}", plan.faults, r.u64() >> 1)));
        }
        w.peer_env(&env);
    }
    if plan.faults > 0 {
        crate::shim::set_fault(plan.faults as i32, seed);
    }
    let hosts = w.hosts();
    // Who hosts the controller?
    let mut order: Vec<Host> = (0..plan.eps)
        .map(|i| {
            if (i as usize) < hosts.len() {
                hosts[i as usize].clone()
            } else {
                r.pick(&hosts).clone()
            }
        })
        .collect();
    r.shuffle(&mut order);
    let mut eps = vec![];
    let mut labels = vec![];
    for (i, h) in order.iter().enumerate() {
        let label = sublabel(&mut r, &pool);
        let delay = if plan.rx_delay_us > 0 && r.pct(50) {
            plan.rx_delay_us
        } else {
            0
        };
        let blocking = r.pct(plan.blocking_pct);
        let aff = i == 0 || r.pct(50);
        let ep = w.join(h, &label, |j| {
            j.rx_delay_us = delay;
            j.aff = aff;
            if blocking {
                j.rx_timeout_ms = None;
            }
        });
        labels.push(label);
        eps.push((ep, h.clone()));
    }
    if let Some(gap) = plan.storm {
        for h in &hosts {
            h.get(Cmd::Storm(Some(gap)));
        }
    }

    let mut stable: BTreeSet<u32> = eps.iter().map(|(e, _)| *e).collect();
    let mut settled = BTreeSet::new();
    for round in 0..plan.rounds {
        if plan.turnover && round > 0 {
            turnover(&mut w, &mut r, &pool, &hosts, &mut eps, &mut stable);
        }
        // Waits in this process would be cut short
        let controller = w.at[&1].clone();
        let jumps = plan.jumps && matches!(controller, Host::Peer(_)) && r.pct(70);
        let jump = move |h: &Host, r: &mut Rng| {
            h.get(Cmd::ClockAdd(*r.pick(&[31_000_000_000, 31_000_000_000, 31_000_000_000, 10_000_000_000, 5_000_000_000_000_000])));
            OUT.count("clock_jumps", 1);
        };
        let jumper = if jumps {
            jump(&controller, &mut r);
            let (h, mut r) = (controller.clone(), r.fork());
            Some(std::thread::spawn(move || {
                for _ in 0..r.below(4) {
                    sleep_us(r.below(15_000));
                    jump(&h, &mut r);
                }
            }))
        } else {
            None
        };
        let mut bs = vec![];
        for t in 0..plan.threads {
            let (ep, h) = if t == 0 && round == 0 && !eps.is_empty() {
                eps[0].clone()
            } else {
                r.pick(&eps).clone()
            };
            let mut ops: Vec<Op> = (0..r.range(2, 5))
                .map(|_| Op::random(&mut r, &pool, plan.depth))
                .collect();
            ops.push(Op::leaf(&format!("@{}", r.pick(&eps).0)));
            if r.pct(50) {
                ops.push(Op::T);
            }
            if plan.n > 60_000 {
                ops = vec![Op::T];
            }
            let mut b = w.burst(ep, plan.n, ops);
            b.uni_pct = plan.uni_pct;
            b.lens = plan.lens.clone();
            b.ttls_ms = plan.ttls_ms.clone();
            b.gap_us = plan.gap_us;
            if plan.spice {
                spice(&mut b, &mut r);
            }
            b.clone = r.pct(50);
            bs.push((h, b));
        }
        let churn = if plan.churn {
            Some(crate::churn::start(&mut w, &mut r, &pool, plan.kill))
        } else {
            None
        };
        let mut barriers = w.bursts(bs);
        if let Some(j) = jumper {
            let _ = j.join();
        }
        if let Some(c) = churn {
            let mut more = c.stop(&mut w);
            barriers.append(&mut more);
        }
        if !w.settle(&barriers, &stable) {
            break;
        }
        settled.extend(barriers.keys().copied());
    }
    if plan.storm.is_some() {
        for h in &hosts {
            let v = h.get(Cmd::Storm(None));
            OUT.count("signals_handled", v["signals"].as_u64().unwrap_or(0));
        }
    }
    if plan.faults > 0 {
        OUT.count("faults_here", crate::shim::faults());
    }
    let hist = w.check(&Rules {
        settled: Some(settled),
        one_order: plan.one_order,
        ..Rules::default()
    });
    w.check_badclose();
    OUT.distinct(format!("calls:{:x}", crate::shim::trace()));
    OUT.sample(json!({"seed": seed, "plan": format!("{plan:?}"), "labels": labels, "pool": pool,
        "controller": eps[0].1.name()}));
    Ran { w, hist }
}

/// Some messages carry attachments, are long, wait long.
pub fn spice(b: &mut Burst, r: &mut Rng) {
    b.att_pct = *r.pick(&[0, 3, 10]);
    b.odd_pct = *r.pick(&[0, 2, 6]);
    b.long_pct = *r.pick(&[0, 2, 6]);
}

/// Between two rounds, at a quiet moment: some endpoints leave (their receivers only, or with a
/// part of their messages unread), and others join. `eps` are those that can send, `stable` those
/// that receive. What is sent from now on is demanded of those that remain.
fn turnover(
    w: &mut World,
    r: &mut Rng,
    pool: &[String],
    hosts: &[Host],
    eps: &mut Vec<(u32, Host)>,
    stable: &mut BTreeSet<u32>,
) {
    let ids: Vec<u32> = eps.iter().map(|(e, _)| *e).collect();
    let controller = 1;
    let mut left = 0;
    for ep in ids {
        // Each takes a while
        if left > 40 || stable.len() < 2 || !stable.contains(&ep) || !r.pct(35) {
            continue;
        }
        left += 1;
        let h = w.at[&ep].clone();
        stable.remove(&ep);
        if ep == controller || r.pct(40) {
            // It goes on sending
            must_return("close of a receiver", 30, || h.get(Cmd::CloseRx(ep)));
            OUT.count("turnover_receivers_closed", 1);
        } else {
            must_return("drop of an endpoint", 30, || h.get(Cmd::Drop(ep)));
            eps.retain(|(e, _)| *e != ep);
            OUT.count("turnover_left", 1);
        }
    }
    for _ in 0..r.range(0, 2) {
        let h = r.pick(hosts).clone();
        let label = sublabel(r, pool);
        let ep = w.join(&h, &label, |j| j.aff = false);
        eps.push((ep, h));
        stable.insert(ep);
        OUT.count("turnover_joined", 1);
    }
}
