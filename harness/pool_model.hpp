// One driver for structure::Pool (P04, ownership part of P12, P36).
#pragma once
#include "vector_model.hpp"
#include "spine/structure/pool.hpp"
#include <optional>

namespace pm {
using spn::structure::Pool;
using vm::IDS;
using vm::Token;
using Ptr = std::shared_ptr<Token>;

// Token with move constructor for populate(T&&)
template <size_t N> struct PoolModel : mc::Model {
    int alive[IDS]{};
    Pool<Token> pool{N};
    ref::Seq<int, N> in;      // ids in the pool, oldest first
    Ptr held[N * 2];          // references of users
    int refs[IDS]{};          // how many of them per id
    bool allocs;
    explicit PoolModel(bool allocs) : allocs(allocs) {
        int n = 0;
        int how = mc::choose(2);
        for (size_t i = 0; i < N; i++) {
            int id = i + 1;
            if (how == 0) pool.populate(new Token(id, &alive[id]));
            else pool.populate(std::make_shared<Token>(id, &alive[id]));
            in.push_back(id);
            n++;
        }
        mc::label("populated with %d objects", n);
        mc::eq(pool.size(), N, "size");
    }
    int slot(bool used) { // canonical: users' references are interchangeable, take by index
        ref::Seq<int, N * 2> s;
        for (size_t i = 0; i < N * 2; i++)
            if ((held[i] != nullptr) == used) s.push_back(i);
        mc::assume(!s.empty());
        return used ? s[mc::choose(s.size())] : s[0];
    }
    void step() override {
        switch (mc::choose(6)) {
        case 0:
        case 1: {
            int h = slot(false);
            if (in.size() < N) mc::broken(); // objects are handed out once all of them are there
            uint64_t a0 = mc_allocs();
            Ptr p = pool.acquire();
            uint64_t used = mc_allocs() - a0;
            if (allocs && used) mc::fail("acquire allocated");
            mc::label("acquire -> %d", p ? p->id : 0);
            bool free_one = false;
            for (int id : in) free_one |= refs[id] == 0;
            mc::check(bool(p) == free_one, free_one ? "no object although one is free" : "an object although none is free");
            if (!p) {
                mc::cover("exhausted");
                break;
            }
            bool member = false;
            for (int id : in) member |= id == p->id;
            mc::check(member, "object %d is not in the pool", p->id);
            if (refs[p->id]) mc::fail("object %d is handed out although it is held", p->id);
            if (alive[p->id] != 1) mc::fail("object %d is not alive", p->id);
            refs[p->id]++;
            held[h] = std::move(p);
            break;
        }
        case 2: {
            int h = slot(true);
            mc::label("release %d", held[h]->id);
            refs[held[h]->id]--;
            held[h].reset();
            break;
        }
        case 3: { // a second reference by a user
            int h = slot(true), h2 = slot(false);
            mc::label("share %d", held[h]->id);
            refs[held[h]->id]++;
            held[h2] = held[h];
            mc::cover("shared by users");
            break;
        }
        case 4: {
            mc::assume(!in.empty());
            int h = slot(false);
            Ptr p = pool.depopulate();
            mc::label("depopulate -> %d", p ? p->id : 0);
            mc::check(p != nullptr, "depopulate yields nothing");
            bool member = false;
            for (size_t i = 0; i < in.size(); i++)
                if (in[i] == p->id) {
                    in.erase(i);
                    member = true;
                    break;
                }
            mc::check(member, "depopulated object %d was not in the pool", p->id);
            if (mc::flip()) refs[p->id]++, held[h] = std::move(p);
            mc::cover("depopulated");
            break;
        }
        case 5: {
            mc::assume(in.size() < N);
            int id = 1;
            while (alive[id]) id++;
            mc::label("populate(%d)", id);
            bool keep = mc::flip(); // the caller may keep a reference of its own
            if (keep) {
                int h = slot(false);
                held[h] = std::make_shared<Token>(id, &alive[id]);
                refs[id]++;
                pool.populate(held[h]);
                mc::cover("populated while the caller keeps a reference");
            } else pool.populate(new Token(id, &alive[id]));
            in.push_back(id);
            break;
        }
        }
        mc::eq(pool.size(), in.size(), "size");
        mc::eq(pool.is_fully_populated(), in.size() == N, "is_fully_populated");
        for (int id = 1; id < IDS; id++) {
            bool member = false;
            for (int r : in) member |= r == id;
            bool want = member || refs[id] > 0;
            if (alive[id] != want) mc::fail("object %d: %d alive, expected %d", id, alive[id], want);
        }
        for (auto& h : held)
            if (h) {
                bool member = false;
                for (int r : in) member |= r == h->id;
                if (h.use_count() != refs[h->id] + member) mc::fail("object %d has %ld references, expected %d", h->id, h.use_count(), refs[h->id] + member);
            }
    }
};

// large pools: hand out everything, in bulk. The objects come from one block (the explorer's allocator is linear).
template <typename T> struct Bump {
    using value_type = T;
    unsigned char** at;
    explicit Bump(unsigned char** a) : at(a) {}
    template <typename U> Bump(const Bump<U>& o) : at(o.at) {}
    T* allocate(size_t n) {
        auto* p = *at;
        *at += (n * sizeof(T) + 15) & ~size_t(15);
        return reinterpret_cast<T*>(p);
    }
    void deallocate(T*, size_t) {}
    template <typename U> bool operator==(const Bump<U>&) const { return true; }
    template <typename U> bool operator!=(const Bump<U>&) const { return false; }
};
// The caller holds nearly everything; acquiring may cost a look at every object, so only few are handed out.
template <size_t N> struct BigPool : mc::Model {
    int alive = 0;
    std::vector<unsigned char> block;
    unsigned char* at;
    Pool<Token> pool{N};
    std::vector<Ptr> held; // by id; empty: free
    size_t free = 0;
    BigPool() : block(N * 80), at(block.data()), held(N) {
        for (size_t i = 0; i < N; i++) {
            held[i] = std::allocate_shared<Token>(Bump<Token>(&at), (int)i, &alive);
            pool.populate(held[i]);
        }
    }
    void take() {
        Ptr p = pool.acquire();
        if (!free) {
            mc::check(p == nullptr, "an object although none is free");
            mc::cover("exhausted");
            return;
        }
        if (!p) mc::fail("no object although %zu of %zu are free", free, N);
        size_t id = (size_t)p->id;
        mc::observe(id);
        if (held[id]) mc::fail("object %zu is handed out although it is held", id);
        held[id] = std::move(p);
        free--;
        mc::cover("taken");
    }
    void step() override {
        static const size_t ids[] = {0, 1, N / 2, 255, 256, 32767, 65535, 65536, N - 2, N - 1};
        switch (mc::choose(4)) {
        case 0: {
            size_t id = ids[mc::choose(sizeof ids / sizeof *ids)];
            mc::assume(id < N && held[id] && free < 4);
            mc::label("release %zu", id);
            held[id].reset();
            free++;
            break;
        }
        case 1: mc::label("acquire"); take(); break;
        case 2:
            mc::label("acquire all");
            while (free) take();
            break;
        case 3:
            mc::label("try when all are held");
            mc::assume(free == 0);
            take();
            break;
        }
        mc::eq(alive, (int)N, "objects alive");
        mc::eq(pool.size(), N, "size");
    }
};
// two pools, one of which may take over the contents of the other
struct MovedPools : mc::Model {
    int alive[IDS]{};
    std::optional<Pool<Token>> pool[2];
    ref::Seq<int, 4> in[2];
    size_t cap[2] = {2, 3};
    Ptr held[3];
    int refs[IDS]{};
    MovedPools() {
        for (int k = 0; k < 2; k++) {
            pool[k].emplace(cap[k]);
            fill(k);
        }
    }
    void fill(int k) {
        while (in[k].size() < cap[k]) {
            int id = 1;
            while (alive[id]) id++;
            pool[k]->populate(new Token(id, &alive[id]));
            in[k].push_back(id);
        }
    }
    void step() override {
        int k = mc::choose(2);
        auto& p = *pool[k];
        switch (mc::choose(6)) {
        case 0: {
            int h = 0;
            while (h < 3 && held[h]) h++;
            mc::assume(h < 3 && cap[k] > 0);
            if (in[k].size() < cap[k]) mc::broken();
            Ptr x = p.acquire();
            mc::label("acquire from pool %d -> %d", k, x ? x->id : 0);
            bool free_one = false, member = false;
            for (int id : in[k]) free_one |= refs[id] == 0, member |= x && x->id == id;
            mc::check(bool(x) == free_one, free_one ? "no object although one is free" : "an object although none is free");
            if (!x) break;
            mc::check(member, "object %d is not in the pool", x->id);
            if (refs[x->id]) mc::fail("object %d is handed out although it is held", x->id);
            refs[x->id]++;
            held[h] = std::move(x);
            break;
        }
        case 1: {
            int h = mc::choose(3);
            mc::assume(held[h] != nullptr);
            mc::label("release %d", held[h]->id);
            refs[held[h]->id]--;
            held[h].reset();
            break;
        }
        case 2: {
            mc::label("pool %d = move(pool %d)", k, 1 - k);
            p = std::move(*pool[1 - k]);
            in[k] = in[1 - k], cap[k] = cap[1 - k];
            in[1 - k].clear(), cap[1 - k] = 0;
            mc::cover("moved");
            break;
        }
        case 3: {
            bool mv = mc::flip();
            mc::label("pool %d = itself", k);
            auto& self = p;
            if (mv) p = std::move(self);
            else p = self;
            break;
        }
        case 4:
            mc::label("pool %d is destroyed and made anew", k);
            pool[k].reset();
            in[k].clear();
            check();
            cap[k] = mc::choose(3) + 1;
            pool[k].emplace(cap[k]);
            fill(k);
            break;
        case 5: {
            mc::assume(!in[k].empty());
            Ptr x = p.depopulate();
            mc::label("depopulate pool %d -> %d", k, x ? x->id : 0);
            mc::check(x != nullptr, "depopulate yields nothing");
            size_t i = 0;
            while (i < in[k].size() && in[k][i] != x->id) i++;
            mc::check(i < in[k].size(), "depopulated object %d was not in the pool", x->id);
            in[k].erase(i);
            break;
        }
        }
        check();
    }
    void check() {
        for (int k = 0; k < 2; k++)
            if (pool[k]) {
                mc::eq(pool[k]->size(), in[k].size(), "size");
                mc::eq(pool[k]->is_fully_populated(), in[k].size() == cap[k], "is_fully_populated");
            }
        for (int id = 1; id < IDS; id++) {
            bool want = refs[id] > 0;
            for (int k = 0; k < 2; k++)
                for (int r : in[k]) want |= r == id;
            if (alive[id] != want) mc::fail("object %d: %d alive, expected %d", id, alive[id], want);
        }
    }
};
template <size_t N> inline void add(int depth, bool allocs = false) {
    mc::config("pool of " + std::to_string(N), [allocs] { return new PoolModel<N>(allocs); }, depth);
}
template <size_t N> inline void add_big(int depth) {
    mc::config("large pool of " + std::to_string(N), [] { return new BigPool<N>(); }, depth);
}
} // namespace pm
