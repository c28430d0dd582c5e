// P15: Stack against a bounded LIFO.
#include "stack_model.hpp"
MC_MAIN {
    using P = std::shared_ptr<vm::Token>;
    bool th = mc::thorough();
    sm::add<int, 0>("int", 4);
    sm::add<int, 1>("int", th ? 16 : 9);
    sm::add<int, 3>("int", th ? 14 : 9);
    sm::add<uint8_t, 4>("uint8", th ? 12 : 8);
    sm::add<vm::Wide, 2>("20-byte struct", th ? 12 : 8);
    sm::add<P, 3>("handles", th ? 12 : 8);
    sm::add<int, 300>("int", th ? 6 : 5);
}
