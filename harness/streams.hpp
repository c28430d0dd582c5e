// Reference queue of bytes and a scripted stream.
#pragma once
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/io/stream/stream.hpp"

namespace st {
// queue with unused space zeroed, so that equal contents are equal bytes
struct Bytes {
    std::unique_ptr<char[]> v;
    size_t cap, n = 0;
    explicit Bytes(size_t c) : v(new char[c + 1]()), cap(c) {}
    char operator[](size_t i) const { return v[i]; }
    size_t size() const { return n; }
    size_t room() const { return cap - n; }
    bool full() const { return n == cap; }
    bool empty() const { return n == 0; }
    std::string_view view(size_t from = 0) const { return {&v[from], n - from}; }
    std::string_view first(size_t k) const { return {&v[0], k}; }
    void drop_front(size_t k) {
        memmove(&v[0], &v[k], n - k);
        memset(&v[n - k], 0, k);
        n -= k;
    }
    void drop_back(size_t k) { while (k--) v[--n] = 0; }
    void clear() { drop_back(n); }
    bool push(char c, bool overwrite = false) {
        if (full()) {
            if (!overwrite) return false;
            drop_front(1);
        }
        v[n++] = c;
        return true;
    }
    size_t push(std::string_view s, bool overwrite = false) {
        size_t k = 0;
        while (k < s.size() && push(s[k], overwrite)) k++;
        return k;
    }
    // length of the first line including its delimiter, 0 if there is none
    size_t line(std::string_view delimiters) const {
        for (size_t i = 0; i < n; i++) if (delimiters.find(v[i]) != std::string_view::npos) return i + 1;
        return 0;
    }
};

// delivers `in`, failing the `fail_read`th read; accepts `room` bytes into `out`, refusing the `refuse_write`th write
struct Script : spn::io::Stream {
    Bytes in, out;
    size_t taken = 0;                                 // bytes of `in` already read
    size_t room = 0, fail_read = 0, refuse_write = 0; // 0: none
    bool shy = false;                                 // reports no more than one byte
    Script(size_t cin, size_t cout) : in(cin), out(cout) {}
    void initialize() override {}
    using spn::io::Stream::read;
    using spn::io::Stream::write;
    bool read(uint8_t& value) override {
        value = '?';
        if (fail_read && --fail_read == 0) return false;
        if (taken == in.size()) return false;
        value = (uint8_t)in[taken++];
        return true;
    }
    size_t read(uint8_t* buffer, size_t length) override {
        size_t k = 0;
        while (k < length && read(buffer[k])) k++;
        return k;
    }
    size_t available() const override { return shy && taken < in.size() ? 1 : in.size() - taken; }
    void settle() {
        in.drop_front(taken);
        taken = 0;
    }
    size_t available_for_write() const override { return shy && room ? 1 : room; }
    bool write(const uint8_t value) override {
        if (refuse_write && --refuse_write == 0) return false;
        if (room == 0) return false;
        room--;
        if (!out.push((char)value)) mc::fail("more bytes were written to the stream than were buffered");
        return true;
    }
    size_t write(const uint8_t* buffer, size_t length) override {
        size_t k = 0;
        while (k < length && write(buffer[k])) k++;
        return k;
    }
    void flush() override {}
};
} // namespace st
