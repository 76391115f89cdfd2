#pragma once
#include "../sim/simxx.hpp"
#include <cstdint>
#include <map>
#include <set>
#include <memory>
#include <vector>
#include <disruptor/Sequence.hpp>
// An event carries redundant fields, so that a mixture of two writes is recognisable.
struct Ev {
    std::int64_t a = 0, b = 0, c = 0;
    std::int64_t d = 0;
};
struct Payload { std::int64_t v = 0; bool torn = false; };
inline void writeEv(Ev &e, Payload p) { // instrumented: every store is a possible scheduling point
    e.a = p.v; e.b = ~p.v; e.c = p.v * 0x9E3779B1; e.d = p.v ^ 0x5555;
}
inline Payload readEv(const Ev &e) {
    std::int64_t a = e.a, b = e.b, c = e.c, d = e.d;
    return { a, !(b == ~a && c == a * 0x9E3779B1 && d == (a ^ 0x5555)) };
}
struct Model { // reference model of one ring
    std::int64_t base = -1, total = 0, maxBatch = 1;
    bool reversePublish = false, translatorThrows = false;
    int ncons = 0, prodDone = 0;
    std::int64_t next[8] = {}; // per consumer: next sequence it must see
    unsigned dep[8] = {};
    int running[8] = {};
    bool mayThrow[8] = {};
    std::map<std::int64_t, std::int64_t> val;   // claimed sequence -> value
    std::set<std::int64_t> written;
    std::map<int, std::int64_t> lastOfProd;
    std::multiset<std::pair<std::int64_t, int>> exWanted;
    std::int64_t counter = 0, claimedHi = -1;
    int exSeen = 0;

    std::int64_t minDone() const { std::int64_t r = INT64_MAX; for (int i = 0; i < ncons; i++) r = std::min(r, next[i] - 1); return r; }
    std::vector<std::shared_ptr<opencmw::disruptor::Sequence>> gates; // of the ring
    int nprod = 1;
    // with a single producer: what consumers have released for certain
    std::int64_t released() const { std::int64_t r = INT64_MAX; for (auto &g : gates) r = std::min(r, g->value()); return r; }
    bool capacityFor(int n, std::size_t size) { return nprod == 1 && base + (std::int64_t) val.size() + n - (std::int64_t) size <= released(); }
    Payload claimed(int pid, std::int64_t s, int, std::size_t size) {
        SIM_CHECK(s > base && s <= base + total + 0, "claim-range", "producer %d was given sequence %ld, expected one in (%ld,%ld]", pid, (long) s, (long) base, (long) (base + total));
        SIM_CHECK(!val.count(s), "claim-twice", "sequence %ld was given out twice", (long) s);
        auto &lp = lastOfProd.try_emplace(pid, base).first->second;
        SIM_CHECK(s > lp, "claim-order", "producer %d got sequence %ld after %ld", pid, (long) s, (long) lp);
        lp = s;
        const std::int64_t old = s - (std::int64_t) size;
        for (int i = 0; i < ncons; i++)
            SIM_CHECK(next[i] - 1 >= old, "overwrite", "slot of sequence %ld was given out for %ld while consumer %d has only processed up to %ld", (long) old, (long) s, i, (long) next[i] - 1);
        if (old > base) sim_probe("slot-reused");
        Payload p; p.v = ++counter * 1000 + pid + 1;
        val[s] = p.v;
        sim_event(0x1000u + (uint64_t) s * 8 + (unsigned) pid);
        sim_class((uint64_t) s * 8 + (unsigned) pid);
        return p;
    }
    void ready(std::int64_t s) { written.insert(s); }
    void consumed(int id, std::int64_t s, const Payload &p, bool eob) {
        SIM_CHECK(s == next[id], s < next[id] ? "delivered-twice" : "skipped", "consumer %d was given sequence %ld, expected %ld", id, (long) s, (long) next[id]);
        auto it = val.find(s);
        SIM_CHECK(it != val.end(), "phantom", "consumer %d was given sequence %ld which nobody claimed", id, (long) s);
        SIM_CHECK(written.count(s), "unpublished", "consumer %d was given sequence %ld before its producer finished writing it", id, (long) s);
        SIM_CHECK(!p.torn, "torn", "consumer %d saw a mixture of two events at sequence %ld", id, (long) s);
        SIM_CHECK(p.v == it->second, "wrong-payload", "consumer %d saw value %ld at sequence %ld, published was %ld", id, (long) p.v, (long) s, (long) it->second);
        for (int j = 0; j < ncons; j++)
            if (dep[id] & (1u << j)) SIM_CHECK(next[j] > s, "dependency", "consumer %d got sequence %ld before consumer %d, on which it depends, had processed it (at %ld)", id, (long) s, j, (long) next[j] - 1);
        next[id]++;
        sim_event(0x2000u + (uint64_t) s * 8 + (unsigned) id + (eob ? 0x100000 : 0));
        sim_class((uint64_t) s * 8 + (unsigned) id + 0x10000);
    }
    void expectEx(int id, std::int64_t s) { exWanted.insert({ s, id }); }
    void gotEx(std::int64_t s, const Payload &p, const char *) {
        auto it = exWanted.lower_bound({ s, -1 });
        SIM_CHECK(it != exWanted.end() && it->first == s, "exception-seq", "exception handler called with sequence %ld, no handler threw there", (long) s);
        exWanted.erase(it);
        SIM_CHECK(!p.torn && val.count(s) && val[s] == p.v, "exception-event", "exception handler was given the wrong event for sequence %ld", (long) s);
        exSeen++;
    }
    void final() {
        SIM_CHECK(exWanted.empty(), "exception-lost", "%zu handler exceptions were never reported", exWanted.size());
        SIM_CHECK((std::int64_t) val.size() == total, "claim-count", "%zu sequences claimed of %ld", val.size(), (long) total);
    }
};
