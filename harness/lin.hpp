// Brute-force linearizability check of a small history against a sequential
// specification. State must be copyable; apply(state, op) returns whether the
// recorded result of op is what the specification gives (and advances state).
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
template <class State, class Op> struct Lin {
    std::vector<Op> ops; // each with .call, .ret (event times)
    std::function<bool(State &, const Op &)> apply;
    std::function<bool(const State &)> final_ok;
    bool rec(uint64_t done, State st) {
        if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1))
            return !final_ok || final_ok(st);
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < ops.size(); i++)
            if (!(done >> i & 1) && ops[i].ret < minret)
                minret = ops[i].ret;
        for (size_t i = 0; i < ops.size(); i++) {
            if ((done >> i & 1) || ops[i].call > minret)
                continue;
            State s2 = st;
            if (apply(s2, ops[i]) && rec(done | 1ull << i, s2))
                return true;
        }
        return false;
    }
    bool check(const State &init) { return rec(0, init); }
};
