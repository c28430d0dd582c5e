// One driver for structure::Stack (P15, ownership part of P12, P36).
#pragma once
#include "vector_model.hpp"
#include "spine/structure/stack.hpp"

namespace sm {
using spn::structure::Stack;
using vm::Elem;
using vm::IDS;
using vm::Token;

template <typename T, size_t CAP> struct StackModel : mc::Model {
    using E = Elem<T>;
    static constexpr int N = CAP > 60 ? 1 : IDS;
    int alive[IDS]{};
    Stack<T> s{CAP};
    ref::Seq<int, CAP + 1> ref;
    bool allocs;
    explicit StackModel(bool allocs) : allocs(allocs) {}
    int fresh() {
        if (CAP > 60) return 1 + (int)(ref.size() * 7 % 251);
        for (int id = 1; id < IDS; id++) {
            bool used = alive[id] != 0;
            for (int r : ref) used |= r == id;
            if (!used) return id;
        }
        mc::fail("driver error: out of ids");
    }
    T make(int id) { return E::make(id, &alive[CAP > 60 ? 0 : id]); }
    void push(bool emplace) {
        int id = fresh();
        T x = make(id);
        uint64_t a0 = mc_allocs();
        if (emplace) s.emplace(std::move(x));
        else {
            s.push(x);
            mc::eq(E::id(x), id, "the caller's element after push");
        }
        if (allocs && mc_allocs() != a0) mc::fail("push allocated");
        if (ref.size() < CAP) ref.push_back(id);
        else mc::broken(), mc::cover("push on a full stack");
    }
    void step() override {
        uint64_t a0;
        switch (mc::choose(CAP > 60 ? 6 : 5)) {
        case 0: mc::label("push"); push(false); break;
        case 1: mc::label("emplace"); push(true); break;
        case 2:
            mc::label("pop");
            if (ref.empty()) mc::cover("pop of an empty stack");
            a0 = mc_allocs();
            s.pop();
            if (allocs && mc_allocs() != a0) mc::fail("pop allocated");
            if (!ref.empty()) ref.pop_back();
            break;
        case 3: {
            mc::assume(!ref.empty());
            mc::label("top");
            mc::eq(E::id(s.top()), ref.back(), "top");
            break;
        }
        case 4: {
            mc::assume(!ref.empty());
            int id = fresh();
            mc::label("top() = %d", id);
            s.top() = make(id);
            ref.back() = id;
            break;
        }
        case 5: {
            size_t n = mc::flip() ? CAP - 1 : 256;
            bool up = mc::flip();
            mc::label("%zu %s", n, up ? "pushes" : "pops");
            for (size_t i = 0; i < n; i++) {
                if (up) push(i & 1);
                else {
                    if (!ref.empty()) mc::eq(E::id(s.top()), ref.pop_back(), "top");
                    s.pop();
                }
            }
            break;
        }
        }
        mc::eq(s.size(), ref.size(), "size");
        mc::eq(s.empty(), ref.empty(), "empty");
        if (!ref.empty()) mc::eq(E::id(s.top()), ref.back(), "top");
        if constexpr (E::counted)
            for (int id = 1; id < IDS; id++) {
                bool held = false;
                for (int r : ref) held |= r == id;
                if (alive[id] != held) mc::fail("element %d: %d alive, expected %d", id, alive[id], held);
            }
    }
};
template <typename T, size_t CAP> inline void add(const char* name, int depth, bool allocs = false) {
    mc::config(std::string(name) + " cap=" + std::to_string(CAP), [allocs] { return new StackModel<T, CAP>(allocs); }, depth);
}
} // namespace sm
