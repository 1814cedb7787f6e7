"""Per-property parameters of the checks: which simulator, how many seeds, how long."""

KINDS = {
    "core": {
        "script": "sim/build.sh", "exe": "sim", "repo": ["netcode"], "own": ["sim"],
        "rule": "one evaluation = one seed = one simulated execution (a swarm configuration of 1 to 4 flows, a generated workload, "
                "and a discrete-event network that decides every delivery, delay and fault); it is non-trivial when at least one "
                "fault fired and at least one block was delivered, and distinct by the hash of everything observable in it "
                "(every datagram, delivery, error and return value, in order)",
        "states": "hash of, per flow: field size, ordering, window occupancy, pending repairs and their sizes, delivered/held/missing "
                  "pattern of the 24 oldest live blocks, mode and rate",
        "oracle": "reference model and history checks",
        "note": "The property held on every simulated execution explored: real library code, every delivery, delay, clock reading, allocation and handler outcome decided by one seed, "
                "judged by an independent reference model. A sample of histories, not a proof; trusts the reference model, GF-Complete and the compiler.",
        "real": ["netcode/ (C++ and C interfaces, encoder, decoder, packetizer, dispatch)", "libgf_complete arithmetic"],
        "stub": ["network (discrete-event links)", "steady_clock, system_clock, clock_gettime, time, gettimeofday", "allocator (operator new, posix_memalign: real memory, injected failures)",
                 "application handlers", "in part of the C10 runs one peer is an independent implementation of the wire format"],
        "assume": ["block sizes 1..65535 (1..65000 when the C interface takes part), multiples of 2 (w=16) and of 4 (w=32)", "a seeded sample of schedules, not an enumeration"],
    },
}

KINDS["tools"] = {
    "script": "simtools/build.sh", "exe": "simtools", "repo": ["netcode", "tools"], "own": ["simtools", "common"],
    "rule": "one evaluation = one seed = one execution of the tool's main() over a virtual kernel whose datagram arrivals, event order, interruptions, "
            "send refusals and clock are decided by the seed; it is non-trivial when at least one fault fired and at least one datagram was forwarded, and "
            "distinct by the hash of every datagram received and sent, its destination, its date and every report",
    "states": "hash, at each wake-up, of the occupancy and readiness of both sockets, event order, loss-model state and pending forwards (proxy) or pending payloads (forwarder)",
    "oracle": "reference loss models and per-datagram history check",
    "note": "The property held on every simulated execution explored: the tool's real main() and the real Boost.Asio reactor over a simulated kernel. A sample of schedules, not a proof; "
            "trusts the simulated kernel's socket and epoll semantics, Boost.Asio, libstdc++'s random engine and the compiler.",
    "real": ["tools/lossy_proxy.cc, tools/loss/*.hh, tools/source_forwarder.cc (whole programs)", "netcode/detail/packetizer.hh", "Boost.Asio (reactor, timers, resolver front end)"],
    "stub": ["kernel: sockets, epoll, eventfd, poll, name resolution", "all clocks", "peers (clients and server)"],
    "assume": ["datagrams up to 4096 bytes for the proxy", "a seeded sample of schedules, not an enumeration"],
}

KINDS["dump"] = {
    "script": "simdump/build.sh", "exe": "simdump", "repo": ["netcode", "tools"], "own": ["simdump", "common", "sim"],
    "rule": "one evaluation = one seed = one recorded session (sender, faulty network, receiver with dumping enabled, disk faults, crashes at arbitrary byte positions), read back, "
            "fed to a fresh receiver and to the replay tool; it is non-trivial when at least one fault fired and one block was delivered, and distinct by the hash of results, deliveries, dump bytes and packets replayed",
    "states": "hash of packets given, packets read back and distance of the crash point",
    "oracle": "list of the packets given to the receiver; deliveries of the original session",
    "note": "The property held on every simulated recording explored: the library built with dumping enabled and the replay tool's real main(), with disk faults and crashes decided by the seed. "
            "A sample, not a proof; a failing disk is fail-stop (once full, it stays full).",
    "real": ["netcode/ with NTC_DUMP_PACKETS (C++ and C interfaces)", "netcode/detail/serialize_packet.hh", "tools/replay.cc (whole program)", "libstdc++ file streams"],
    "stub": ["network", "clocks", "read/write system calls on the dump (real file, injected faults)"],
    "assume": ["packets of 1 to 65000 bytes", "a disk that failed once keeps failing", "a seeded sample of schedules, not an enumeration"],
}

KINDS["threads"] = {
    "script": "simthreads/build.sh", "exe": "simthreads", "repo": ["netcode"], "own": ["simthreads", "common", "sim"],
    "rule": "one evaluation = one seed = 2 to 5 sessions with their own workload and losses, run under one schedule (threads switched at any basic block or memory access inside the library, or one "
            "thread running other sessions from inside handlers) and then alone; it is non-trivial when at least one switch happened and one block was delivered, and distinct by the hash of "
            "everything the sessions emitted, delivered and returned and of the switch points",
    "states": "hash of the sequence of switch points and targets (distinct interleavings)",
    "oracle": "the same sessions run alone",
    "note": "Each session emitted and delivered exactly what it does alone in every interleaving explored: real library code on real threads, one running at a time, switched where the seed says. "
            "A sample of interleavings, not a proof; GF-Complete calls are atomic and hardware memory reordering is not simulated.",
    "real": ["netcode/ (C++ and C interfaces), instrumented with a scheduling point per basic block and memory access", "libgf_complete arithmetic (atomic between scheduling points)"],
    "stub": ["thread scheduler (baton)", "network", "clocks", "function-local static guards, mutexes and pthread_once (cooperative)"],
    "assume": ["each object is used by one thread at a time", "sequentially consistent memory", "a seeded sample of schedules, not an enumeration"],
}

def core(runs, secs=75, truns=400000, tsecs=600, **k):
    return dict(kind="core", quick=(runs, secs), thorough=(truns, tsecs), **k)

PROPS = {
    "C01": core(26000), "C02": core(26000), "C03": core(26000), "C04": core(26000), "C05": core(26000), "C06": core(22000),
    "C07": core(26000), "C08": core(26000), "C09": core(26000), "C10": core(26000), "C11": core(26000), "C12": core(26000),
    "C13": core(26000), "C14": core(26000), "C15": core(26000), "C16": core(26000), "C17": core(26000), "C20": core(26000), "C23": core(26000),
}

def tools(runs=24000, secs=75, truns=400000, tsecs=600):
    return dict(kind="tools", quick=(runs, secs), thorough=(truns, tsecs))
PROPS["C21"] = tools()
PROPS["C22"] = tools()

PROPS["C19"] = dict(kind="dump", quick=(18000, 75), thorough=(400000, 600))

PROPS["C18"] = dict(kind="threads", quick=(18000, 75), thorough=(400000, 600), cpu=20)

NA = {}
