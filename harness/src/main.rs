mod bnode;
mod churn;
mod ext;
#[cfg(feature = "layout")]
mod layout;
mod lines;
mod model;
mod msg;
mod node;
mod scen_attach;
mod scen_big;
mod scen_census;
mod scen_child;
mod raw;
mod scen_api;
mod scen_data;
mod scen_fair;
mod scen_pass;
mod scen_idle;
mod scen_ffi;
mod scen_handles;
mod scen_hostile;
mod scen_join;
mod scen_js;
mod scen_registry;
mod scen_loss;
mod scen_time;
mod scen_traffic;
mod scen_ttl;
mod shim;
mod sig;
mod traffic;
mod util;
mod world;

use util::*;

#[cfg(feature = "layout")]
#[global_allocator]
static ALLOCATOR: layout::Watching = layout::Watching;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("peer") => node::peer_main(&args[2], &args[3]),
        Some("bnode") => bnode::main(),
        Some("fds") => scen_child::fds_main(),
        Some("scen") => {
            scen_child::remember();
            let name = args[2].clone();
            let seed: u64 = args[3].parse().unwrap();
            util::many_fds();
            scenario(&name, seed);
            OUT.finish();
        }
        _ => harness_error("usage: vh scen NAME SEED | vh peer NAME DIR"),
    }
}

fn scenario(name: &str, seed: u64) {
    match name {
        "multicast" => scen_traffic::multicast(seed),
        "unicast" => scen_traffic::unicast(seed),
        "load" => scen_traffic::load(seed),
        "crowd" => scen_traffic::crowd(seed),
        "long_haul" => scen_traffic::long_haul(seed),
        "haul" => scen_traffic::haul(seed),
        "common_order" => scen_traffic::common_order(seed),
        "churn" => scen_traffic::churn(seed),
        "signals" => scen_traffic::signals(seed),
        "labels_local" => scen_data::labels_local(seed),
        "labels_bus" => scen_data::labels_bus(seed),
        "labels_deep" => scen_data::labels_deep(seed),
        "payload" => scen_data::payload(seed),
        "sizes" => scen_data::sizes(seed),
        "typed" => scen_data::typed(seed),
        "objects" => scen_attach::objects(seed),
        "memory" => scen_attach::memory(seed),
        "registry" => scen_registry::registry(seed),
        "registry_stream" => scen_registry::registry_stream(seed),
        "ttl" => scen_ttl::ttl(seed),
        "ttl_race" => scen_ttl::ttl_race(seed),
        "tokens" => scen_join::tokens(seed),
        "versions" => scen_join::versions_scen(seed),
        "race" => scen_join::race(seed),
        "no_heir" => scen_join::no_heir(seed),
        "long_idents" => scen_join::long_idents(seed),
        "hostile" => scen_hostile::hostile(seed),
        "shrunk" => scen_hostile::shrunk(seed),
        "timeouts" => scen_time::timeouts(seed),
        "join_timeouts" => scen_time::join_timeouts(seed),
        "long_timeouts" => scen_time::long_timeouts(seed),
        "lost_timeouts" => scen_time::lost_timeouts(seed),
        "saturated" => scen_handles::saturated(seed),
        "js" => scen_js::js(seed),
        "handles" => scen_handles::handles(seed),
        "census" => scen_census::census(seed),
        "census_loss" => scen_census::census_loss(seed),
        "heap" => scen_census::heap_growth(seed),
        "children" => scen_child::children(seed),
        "left_behind" => scen_child::left_behind(seed),
        "outlived" => scen_child::outlived(seed),
        "untransportable" => scen_big::untransportable(seed),
        "loss" => scen_loss::loss(seed),
        "closed_while_lost" => scen_loss::closed_while_lost(seed),
        "ffi" => scen_ffi::ffi(seed),
        "fair" => scen_fair::fair(seed),
        "idle" => scen_idle::idle(seed),
        "passed_on" => scen_pass::passed_on(seed),
        "threads" => scen_api::threads(seed),
        "refcount" => scen_attach::refcount(seed),
        _ => harness_error(format!("no scenario {name}")),
    }
}
