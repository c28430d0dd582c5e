// P14: Array as a value: access, iteration, swap, move, assignment, views.
#include "array_model.hpp"
struct Large : mc::Model {
    template <typename T> static void same(const spn::structure::Array<T>& x, size_t n, int seed, const char* what) {
        mc::eq(x.size(), n, what);
        for (size_t i = 0; i < n; i++) if (x[i] != (T)(seed ? i * (size_t)seed : 7)) mc::fail("%s: element %zu is %d", what, i, (int)x[i]);
        size_t i = 0;
        for (auto& e : x) if (i >= n || &e != &x[i++]) mc::fail("%s: iteration differs at %zu", what, i);
        mc::eq(i, n, what);
        for (auto r = x.rbegin(); r != x.rend(); ++r) if (!i || &*r != &x[--i]) mc::fail("%s: reverse iteration differs at %zu", what, i);
        mc::eq(i, size_t(0), what);
    }
    template <typename T> void run(size_t n) {
        using A = spn::structure::Array<T>;
        A x(n);
        for (size_t i = 0; i < n; i++) x[i] = (T)(i * 3);
        same(x, n, 3, "written");
        A y(n, (T)7);
        same(y, n, 0, "made of copies");
        y.swap(x);
        same(y, n, 3, "swapped");
        same(x, n, 0, "swapped");
        {
            A view(y);
            same(view, n, 3, "view");
            view.fill((T)7);
            same(y, n, 0, "filled through a view");
            for (size_t i = 0; i < n; i++) view[i] = (T)(i * 3);
        }
        same(y, n, 3, "written through a view");
        A w(std::move(y));
        same(w, n, 3, "moved");
        x = std::move(w);
        same(x, n, 3, "move assigned");
        mc::check(&x.back() == &x[n - 1] && &x.at(n - 1) == &x[n - 1], "last element");
        mc::cover("large arrays");
    }
    void step() override {
        size_t n = mc::pick(std::vector<size_t>{127, 128, 255, 256, 257, 1000, 32768, 65536, 65537, 70000});
        mc::label("%zu elements", n);
        if (mc::flip()) run<uint8_t>(n);
        else run<int>(n);
    }
};
MC_MAIN {
    mc::config("large arrays", [] { return new Large; }, 1);
    bool th = mc::thorough();
    am::add<int>("two arrays of int", th ? 5 : 4);
    am::add<uint8_t>("two arrays of uint8", th ? 5 : 3);
    am::add<std::shared_ptr<vm::Token>>("two arrays of handles", th ? 5 : 3);
}
