"""The collector's address set against std::set (harness/pset.cpp)."""

TECHNIQUE = "monitored execution of random histories with a differential oracle (std::set), under AddressSanitizer, UndefinedBehaviorSanitizer and the standard library's assertions"
NOTE = ("Held on the generated histories only: sets of up to a few thousand addresses around word, page and region boundaries, at both ends of the address space and at random, for the template "
        "parameters the collector uses and for small ones that make whole regions fill and empty. Insertions of members and removals of non-members are outside the contract of the set.")
RULE = ("one history is a random sequence of insert, erase, contains, lower_bound, ++, --, ranges, full traversals in both directions, clearing while traversing, and the move-and-swap of a collection; "
        "distinct by the contents of the set at each full traversal")
MIN = 100000


def run(ck):
    base = ck.rng.randrange(1 << 40)
    n = ck.n(8, 64)
    a = ck.run_tools("opt", "pset", [(base + i * 1000, ck.n(20000, 60000), ck.n(6, 20)) for i in range(n)], "histories", timeout=800)
    b = ck.run_tools("san", "pset", [(base + 777 + i * 1000, ck.n(2500, 20000), ck.n(4, 10)) for i in range(n)], "histories (sanitized)", timeout=800)
    tot = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
    ck.evaluations += tot.get("operations", 0)
    ck.extra.update(tot)
    # the histories count the different contents of the set they saw
    ck.distinct.update(range(tot.get("states", 0)))
