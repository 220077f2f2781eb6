// S03: independent objects can be used from different threads
#include "jobs.hpp"

MON_RULE("2 to 8 threads that each work on objects of their own (12 kinds of work: parsing and answering requests, whole HTTP exchanges and WebSocket sessions, native and embedded files, URIs, encoders, hashes, frames, messages, MIME types), first concurrently and then the same work alone; violations: a race reported by ThreadSanitizer, a result that differs; non-trivial = one result compared; distinct by kind and result");
MON_REQUIRE("results compared", 8000);
MON_REQUIRE("concurrent phases", 150);

using namespace work;

MON_SECTION(threads, 8 * 13 * 3, 8 * 13 * 60) {
    constexpr std::size_t kinds = std::size(jobs);
    // every shard meets each kind of work concurrently before it meets it alone: what is initialized at the first use is seen too
    auto only = (index / 8) % (kinds + 1);
    mon::Scratch dir;
    dir.write("a.txt", rng.bytes(2000));
    dir.write("sub/b.bin", rng.bytes(rng.below(20000)));
    dir.write("empty", "");
    struct Work {
        std::uint64_t seed;
        std::size_t kind;
        std::uint64_t concurrently = 0, alone = 0;
        std::string error;
    };
    std::size_t n = 2 + rng.below(7), each = mon::thorough() ? 30 : 8;
    std::vector<std::vector<Work>> work(n);
    bool same = rng.chance(30); // everybody does the very same
    for (auto& list : work)
        for (std::size_t k = 0; k < each; ++k) list.push_back({rng.next(), only < kinds ? only : rng.below(kinds)});
    if (same)
        for (auto& list : work) list = work[0];
    auto run = [&](Work& x) {
        mon::Rng r(x.seed);
        Digest d;
        try {
            jobs[x.kind](r, d, dir.root);
        }
        catch (const mon::Violation&) {
            d.add("violation");
        }
        catch (const std::exception& e) {
            d.add(e.what());
            x.error = e.what();
        }
        return d.h;
    };
    std::atomic<std::size_t> waiting{n};
    std::vector<std::thread> threads;
    for (auto& list : work)
        threads.emplace_back([&] {
            waiting.fetch_sub(1, std::memory_order_relaxed); // orders nothing
            while (waiting.load(std::memory_order_relaxed)) std::this_thread::yield();
            for (auto& x : list) x.concurrently = run(x);
        });
    for (auto& t : threads) t.join();
    mon::count("concurrent phases");
    for (auto& list : work)
        for (auto& x : list) {
            x.alone = run(x);
            if (x.alone != x.concurrently) mon::fail(std::string("result differs when other threads work too: ") + jobNames[x.kind], "seed " + std::to_string(x.seed) + " with " + std::to_string(n) + " threads " + x.error);
            mon::count("results compared");
            mon::nontrivial(mon::mix(x.alone, x.kind));
        }
    mon::sample(std::to_string(n) + " threads, " + (only < kinds ? jobNames[only] : "all kinds") + (same ? ", the same for all" : ""));
}
