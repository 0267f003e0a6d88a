"""What each check runs, and what it must at least have observed."""

ASSUMPTIONS = [
    "Linux only: the Windows and macOS code is not compiled here",
    "held on the executions that were run; nothing is said about schedules and inputs that did not occur",
]

HIST = (
    "one evaluation = one generated program of endpoints, labels, senders and messages over real processes, "
    "run under seeded delays and judged by the offline checker; distinct = different delivery histories "
    "(order of receives at every endpoint) and orders of socket calls; an execution without a "
    "demanded delivery does not count"
)
ND = dict(nontrivial="deliveries_demanded")

PROPS = {
    "C01": dict(
        jobs=[
            dict(scen="labels_local", unit=["formulas"], weight=2, min=2),
            dict(scen="labels_bus", unit=["messages"], weight=2, min=4),
            dict(scen="labels_deep", unit=["formulas"], min=4),
        ],
        rule="one evaluation = one formula over one label in-process, or one message routed by a formula over a real bus, "
        "compared with an independent truth-table evaluator; distinct = different (formula, label) pairs, plus "
        "different delivery histories of the bus executions",
        need={"formulas": 5000, "deliveries_demanded": 500},
        technique="reference-evaluator monitor, in-process and over recorded bus deliveries",
    ),
    "C02": dict(
        jobs=[dict(scen="multicast", weight=14, **ND), dict(scen="haul", min=2, **ND), dict(scen="crowd", min=2, **ND)],
        rule=HIST,
        need={"max_messages_of_one_sender": 4000, "deliveries_with_attachments": 100, "deliveries_long_lived": 100, "deliveries_demanded": 2000, "crowds": 5, "twins": 30},
        technique="offline delivery-history checker under seeded delays",
    ),
    "C03": dict(
        jobs=[dict(scen="unicast", weight=12, **ND), dict(scen="haul", min=2, **ND), dict(scen="crowd", min=1, **ND),
              dict(scen="left_behind", unit=["left_behind"], min=3, weight=4)],
        rule=HIST,
        need={"max_messages_of_one_sender": 4000, "deliveries_with_attachments": 100, "deliveries_long_lived": 100, "deliveries_demanded": 2000, "left_behind": 60, "twins": 30},
        technique="offline delivery-history checker under seeded delays",
    ),
    "C04": dict(
        jobs=[dict(scen="load", weight=3, **ND), dict(scen="haul", min=2, **ND), dict(scen="long_haul", weight=0, **ND)],
        rule=HIST,
        need={"deliveries_with_attachments": 100, "deliveries_long_lived": 100, "deliveries_demanded": 10000, "max_messages_of_one_sender": 65537, "faults_here": 20},
        technique="offline per-sender sequence checker under saturating load",
    ),
    "C05": dict(
        jobs=[dict(scen="sizes", unit=["values"], min=128), dict(scen="payload", unit=["values"], weight=3, min=8)],
        rule="one evaluation = one value (or one encoded size) sent over a real bus and compared byte for byte; distinct = "
        "different encodings, and different sizes of the sweep 0..64 KiB",
        need={"values": 65000},
        technique="round-trip monitor: exhaustive sweep of encoded sizes, generated values",
    ),
    "C06": dict(
        jobs=[dict(scen="typed", unit=["sent"])],
        rule="one evaluation = one message of some type (or with a broken payload) sent to receivers of different declared types; "
        "distinct = different sequences of items over different receivers",
        need={"sent": 2000, "received": 1000, "decode_errors": 50},
        technique="trace monitor of receive results against the exact expected sequence",
    ),
    "C07": dict(
        jobs=[dict(scen="objects", unit=["cases"])],
        rule="one evaluation = one message with kernel objects sent and all of its copies examined; distinct = different "
        "(kinds, receivers, routing)",
        need={"objects_received": 300, "leak_checked": 100, "written_through": 100},
        technique="kernel-object identity and EOF leak monitors",
    ),
    "C08": dict(
        jobs=[dict(scen="memory", unit=["windows"])],
        rule="one evaluation = one range mapped (or refused) in some process and compared with a model byte array; distinct = "
        "different (size, range)",
        need={"windows": 1500, "windows_outside": 200, "regions_received": 50, "huge_windows": 300},
        technique="model byte-array monitor over mappings in several processes",
    ),
    "C09": dict(
        jobs=[dict(scen="refcount", unit=["counts_compared"])],
        rule="one evaluation = the count of one region compared with the number of live handles and unconsumed copies; distinct = "
        "different generated programs",
        need={"counts_compared": 1000, "storms": 50, "storms_in_two_processes": 10, "many_handles": 20, "undecoded": 10, "expired": 5, "closed": 10, "untransportable": 50},
        technique="handle-count reference model at quiescent points",
    ),
    "C10": dict(
        jobs=[dict(scen="registry", unit=["allocs"], weight=3), dict(scen="registry_stream", unit=["allocs"])],
        rule="one evaluation = one allocation examined (size, identity, exclusiveness, callback); distinct = different programs",
        need={"allocs": 1000, "reused": 100, "shared": 100, "maintained": 20, "given_back": 50},
        technique="registry reference model, fill patterns and callback log under a virtual clock",
    ),
    "C11": dict(
        jobs=[dict(scen="ttl", unit=["sent"], weight=2), dict(scen="ttl_race", unit=["delivered_late"])],
        rule="one evaluation = one message that waits (or does not) for a receiver, decided against the virtual time of its "
        "send and of the join; distinct = different histories",
        need={"sent_with_attachments": 100, "senders_left": 20, "recvs_without_timeout": 100, "delivered_late": 500, "expired_not_delivered": 200, "max_waiting_for_one": 1000},
        technique="virtual-clock trace monitor of waiting messages",
    ),
    "C12": dict(
        jobs=[dict(scen="tokens", unit=["refused", "accepted"])],
        rule="one evaluation = one join with a right or wrong token; distinct = different histories (what was delivered where, "
        "order of socket calls)",
        need={"refused": 200, "accepted": 100, "deliveries_demanded": 500, "crowded": 2},
        technique="outcome monitor of joins plus delivery-history checker, with raw endpoints",
    ),
    "C13": dict(
        jobs=[dict(scen="versions", variant="versions", unit=["version_joins"])],
        rule="one evaluation = one join between two builds of the library that differ in the version number; distinct = different "
        "histories of the mixed buses",
        need={"version_joins": 100, "refused": 40, "deliveries_demanded": 200},
        technique="outcome monitor of joins between builds of different versions plus delivery-history checker",
    ),
    "C14": dict(
        jobs=[
            dict(scen="long_idents", unit=["long"], weight=0),
            dict(scen="race", unit=["races"], env={"VH_SLEEP_DIV": "50"}, weight=4),
            dict(scen="no_heir", unit=["looks"], env={"VH_SLEEP_DIV": "50"}, min=4),
        ],
        rule="one evaluation = one set of colliding joins to some identifiers, examined for the number of controllers and the "
        "reachability of all pairs, or one look at who listens while only endpoints without affinity are left; distinct = "
        "different histories and call orders",
        need={"races": 60, "deliveries_demanded": 500, "orphaned": 15},
        technique="controller census and pairwise reachability monitor over racing joins",
    ),
    "C15": dict(
        jobs=[
            dict(scen="loss", unit=["controller_deaths"], env={"VH_SLEEP_DIV": "50"}, weight=2),
            dict(scen="closed_while_lost", unit=["closed_while_lost"], env={"VH_SLEEP_DIV": "50"}, min=8, weight=1),
        ],
        rule="one evaluation = one death of the process hosting the controller amid traffic and joins, at a chosen socket call or "
        "moment; distinct = different (victim, call, moment) stories and histories",
        need={"deliveries_with_attachments": 100, "deliveries_long_lived": 100, "closed_while_lost": 20, "controller_deaths": 30, "deaths_at_a_call": 8, "reformed": 20, "deliveries_demanded": 1000},
        technique="crash injection at socket calls plus offline delivery-history checker",
    ),
    "C16": dict(
        jobs=[dict(scen="churn", weight=4, **ND), dict(scen="left_behind", unit=["left_behind"], min=3)],
        rule=HIST,
        need={"deliveries_with_attachments": 100, "deliveries_long_lived": 100, "deliveries_demanded": 10000, "churn_kills": 20, "clock_jumps": 50, "left_behind": 60, "twins": 10, "churn_twins": 50},
        technique="offline delivery-history checker amid joins, departures and SIGKILLs",
    ),
    "C17": dict(
        jobs=[
            dict(scen="shrunk", weight=0),
            dict(scen="hostile", unit=["attack_frames", "attack_connections"], weight=2, min=2),
            dict(scen="hostile", variant="asan", unit=["attack_frames", "attack_connections"], min=1),
        ],
        rule="one evaluation = one frame (or connection) of arbitrary, truncated, mutated or out-of-sequence bytes and descriptors "
        "thrown at a bus that works at the same time; distinct = different histories of the bus executions",
        need={"attack_frames": 5000, "attack_connections": 50, "deliveries_demanded": 500, "joins_amid": 10},
        technique="hostile peers from raw sockets against the real bus, with AddressSanitizer and the delivery-history checker",
    ),
    "C18": dict(
        jobs=[
            dict(scen="timeouts", unit=["timeouts_measured", "endless_recvs", "available_received"], weight=3, min=4, shim=False),
            dict(scen="join_timeouts", unit=["timeouts_measured", "endless_joins"], weight=2, min=12, shim=False),
            dict(scen="lost_timeouts", unit=["timeouts_measured"], weight=1, min=2, shim=False),
            dict(scen="long_timeouts", unit=["long_waits"], weight=2, min=4, env={"VH_VWAIT": "1"}),
        ],
        workers=6,
        rule="one evaluation = one wait (recv or join) that ended, compared with the timeout it was given on the monotonic clock; "
        "distinct = different (kind of wait, endpoint, duration, noise)",
        need={"timeouts_measured": 300, "endless_recvs": 50, "endless_joins": 2, "available_received": 80, "foreign_messages": 1000,
              "ended_unanswered": 3, "long_waits": 30, "reached_amid_long_wait": 8},
        technique="real-time monitor of waits amid silence, foreign messages, missing, stopped and dying controllers; virtual clock for waits of up to a year",
    ),
    "C19": dict(
        jobs=[
            dict(scen="signals", weight=3, **ND),
            dict(scen="timeouts", unit=["timeouts_measured", "endless_recvs"], weight=1, min=2, shim=False, env={"VH_STORM": "1"}),
        ],
        rule=HIST + "; and one per wait that signals interrupted all the time",
        need={"deliveries_demanded": 10000, "signals_handled": 1000, "faults_here": 100},
        technique="offline delivery-history checker under signal storms",
    ),
    "C20": dict(
        jobs=[
            dict(scen="census", unit=["visits", "strays"], weight=2, min=4),
            dict(
                scen="heap", unit=["visits", "strays", "messages_sent", "sizes_allocated"], weight=2, min=4,
                env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1:glibc.malloc.mxfast=0"},
            ),
            dict(scen="census_loss", unit=["reformed"], weight=1, min=2, env={"VH_SLEEP_DIV": "50"}),
        ],
        rule="one evaluation = one stay on a bus (join to departure, killed or not), one connection that did not become an endpoint, or "
        "one reformation after a controller's death, followed by a count of descriptors, mappings, threads and heap bytes of the others; "
        "distinct = different programs of such events",
        need={"busy_periods": 10, "with_waiting_messages": 5, "visits": 500, "strays": 100, "censuses": 30, "heaps_measured": 40, "reformed": 10, "kills": 3, "sizes_allocated": 150},
        technique="resource census (descriptors, mappings, threads, heap bytes) against a baseline, under a virtual clock",
    ),
    "C21": dict(
        jobs=[
            dict(scen="children", unit=["children_asked", "children_meanwhile"], weight=2),
            dict(scen="outlived", unit=["outlived"], min=4, env={"VH_SLEEP_DIV": "50"}),
            dict(scen="left_behind", unit=["left_behind"], min=3),
        ],
        rule="one evaluation = one program started by a participant (before, between or during its operations) that reported the "
        "descriptors it was born with, or that outlived its parent; distinct = different programs of operations",
        need={"children_asked": 300, "children_meanwhile": 500, "attachments_held": 500, "outlived": 10, "left_behind": 60},
        technique="descriptor census of executed programs, and liveness monitor of buses whose participants leave programs behind",
    ),
    "C22": dict(
        jobs=[dict(scen="untransportable", unit=["monsters"])],
        rule="one evaluation = one message that exceeds what the transport carries, sent amid traffic that must not be affected; "
        "distinct = different (kind, size, attachments, routing, time-to-live, sender) and delivery histories",
        need={"monsters": 400, "attachments_gone": 50, "deliveries_demanded": 10000},
        technique="fault-injecting workload (oversized messages) with the delivery-history checker and attachment leak monitor",
    ),
    "C26": dict(
        jobs=[
            dict(scen="saturated", unit=["saturated"], weight=3),
            dict(scen="handles", unit=["receiver_drops"], weight=2),
            dict(scen="lost_timeouts", unit=["dropped_without_controller"], min=2, shim=False),
            dict(scen="loss", min=2, env={"VH_SLEEP_DIV": "50"}),
            dict(scen="closed_while_lost", unit=["closed_while_lost"], min=4, env={"VH_SLEEP_DIV": "50"}),
        ],
        rule="one evaluation = one receiver dropped (or an endpoint used up) while other threads send through, clone and drop its "
        "handles, with full or empty buffers; distinct = different (moment, way of leaving, sizes) and delivery histories",
        need={"saturated": 100, "receiver_drops": 100, "clones": 2000, "sends_that_returned": 20000, "dropped_without_controller": 2},
        technique="deadlock watchdogs over concurrent handle programs with saturated buffers, delivery-history checker",
    ),
    "C27": dict(
        jobs=[dict(scen="fair", unit=["served"])],
        rule="one evaluation = one join or one message of somebody else that had to get through while other endpoints sent without pause; "
        "distinct = different floods (who, how many threads, sizes, where the controller is)",
        need={"floods": 20, "served": 300, "messages_amid": 150, "markers": 200},
        technique="starvation monitor: joins and messages amid unending floods, bounded by the deliveries of others; messages sent later that overtake are counted",
    ),
    "C28": dict(
        jobs=[dict(scen="common_order", **ND)],
        rule=HIST,
        need={"deliveries_with_attachments": 100, "deliveries_long_lived": 20, "receives_ordered": 20000},
        technique="offline checker: the receive orders of all endpoints and the received-before-sent pairs merged into one relation, searched for cycles",
    ),
    "C29": dict(
        jobs=[dict(scen="idle", unit=["rests"])],
        rule="one evaluation = one rest of a bus after some events, in which the processor time and the context switches of every "
        "process were read from the kernel; distinct = different histories of events",
        need={"rests": 100, "kills": 20, "leaves": 20, "refused": 20, "strays": 40, "waiting_joins": 20, "endless_receives": 20, "full": 4, "orphaned": 8},
        technique="kernel scheduling statistics (schedstat) of quiescent processes after seeded histories",
    ),
    "C30": dict(
        jobs=[dict(scen="passed_on", unit=["deliveries_compared"])],
        rule="one evaluation = one delivery of a message that endpoints on the way had received and sent again, compared with a model of "
        "its routing and with what was first sent; distinct = different programs and delivery histories",
        need={"passed_on": 1000, "deliveries_compared": 1000, "objects_compared": 100, "regions_compared": 100, "waited": 50, "expired": 30, "leak_checked": 15, "edited": 100},
        technique="delivery model over chains of buses with gateways that re-send what they receive, leak monitor at the end",
    ),
    "C31": dict(
        jobs=[
            dict(scen=s, variant="compat", weight=w, min=3, unit=[], nontrivial="", env=e)
            for s, w, e in (
                ("multicast", 2, {}), ("unicast", 1, {}), ("labels_bus", 1, {}), ("payload", 1, {}), ("sizes", 0, {}), ("objects", 2, {}), ("memory", 2, {}),
                ("refcount", 2, {}), ("registry_stream", 1, {}), ("ttl", 1, {}), ("tokens", 2, {}), ("passed_on", 2, {}), ("churn", 1, {}),
                ("untransportable", 1, {}), ("race", 1, {"VH_SLEEP_DIV": "50"}), ("loss", 1, {"VH_SLEEP_DIV": "50"}),
            )
        ],
        rule="one evaluation = one generated program in which processes with different builds of the library (the tree's, the tree's "
        "with shuffled data layouts, the frozen one's) share buses, judged by the oracle of its scenario; distinct = different programs and histories",
        need={"peers_of_another_build": 100, "deliveries_demanded": 2000, "objects_received": 50, "windows": 300, "counts_compared": 100, "values": 500},
        technique="delivery-history, object-identity, byte-array and count monitors over buses of several builds of the library, one of them frozen",
    ),
    "C24": dict(
        jobs=[dict(scen="ffi", variant="ffi", unit=["received", "outside", "region_ops", "allocs", "joins", "refused"])],
        rule="one evaluation = one result of a call through the C or the C++ interface (received message, join, allocation, mapping, "
        "access outside the bounds) compared with what the same call means in Rust, in programs run under AddressSanitizer, "
        "UndefinedBehaviorSanitizer and LeakSanitizer; distinct = different programs",
        need={"programs": 25, "received": 1000, "objects_examined": 200, "outside": 500, "reused": 5, "registries_dropped": 20, "refused": 30,
              "incompatible": 1, "waited": 10, "waited_briefly": 3, "large": 10, "expired": 5, "decode_errors": 5},
        technique="model-based differential monitor over C, C++ and Rust participants under AddressSanitizer, UBSan and LeakSanitizer",
    ),
    "C25": dict(
        jobs=[
            dict(scen="js", variant="js", unit=["recvs", "closes", "windows", "received_from_node"], weight=2, min=8),
            dict(scen="js", variant="jsasan", unit=["recvs", "closes", "windows", "received_from_node"], weight=1, min=4),
        ],
        rule="one evaluation = one recv promise followed until it settled (or one close, one mapping, one message from Node to Rust), "
        "its outcome and time compared with what was sent, asked for and closed; distinct = different programs",
        need={"programs": 25, "compared": 3000, "timed_out": 300, "closed": 500, "closes_amid_messages": 10, "decode_errors": 10, "drained": 20,
              "starved": 4, "workers_ended": 4, "exits_amid_messages": 4, "waited": 10, "expired": 5, "spread": 60, "node_to_node": 50, "received_from_node": 100, "windows": 30},
        technique="promise-outcome monitor over Node programs with Rust peers, partly under AddressSanitizer",
    ),
    "C23": dict(
        jobs=[
            dict(scen=s, variant=v, weight=w, min=1, unit=[], nontrivial="")
            for v, scens in {
                "tsan": [("threads", 4), ("handles", 2), ("saturated", 1), ("load", 1), ("churn", 2), ("refcount", 1), ("registry", 1), ("race", 1)],
                "asan": [
                    ("threads", 2), ("handles", 1), ("churn", 1), ("objects", 1), ("memory", 1), ("registry", 1), ("typed", 1), ("payload", 1),
                    ("untransportable", 1), ("labels_deep", 1),
                ],
                "msan": [("threads", 2), ("objects", 1), ("typed", 1), ("refcount", 1), ("tokens", 1), ("churn", 1), ("untransportable", 1)],
            }.items()
            for s, w in scens
        ]
        # The allocator watches that memory is freed as what it was allocated as
        + [dict(scen=s, layout=True, min=1, unit=[], nontrivial="") for s in ("threads", "churn", "objects", "registry", "payload", "untransportable", "sizes")],
        rule="one evaluation = one generated program over the safe interface executed under ThreadSanitizer, AddressSanitizer or "
        "MemorySanitizer (library and standard library instrumented, debug assertions on), with its own oracle running as well; "
        "distinct = different programs (inputs, delivery histories)",
        need={"threads": 20, "joins": 200, "sends": 3000, "clones": 500, "deliveries_demanded": 5000, "windows": 1000},
        technique="ThreadSanitizer, AddressSanitizer, MemorySanitizer and an allocator that checks layouts over multi-threaded programs of the safe interface",
    ),
}
