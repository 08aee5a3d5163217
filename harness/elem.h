// Element types put into the containers and queues under test.
#pragma once
#include "../sim/rt.h"
#include <new>

struct CopyFail {};
struct CallFail {};
const long MOVED = -777777;

// Owns a heap cell; copies may fail (COPY stream, and ALLOC for the cell);
// moves never fail.  The registry checks that every object is constructed once,
// destroyed once and only used in between.
struct TElem {
    long v;
    long* cell;
    static void aligned(const void* p) {
        if ((uintptr_t)p % alignof(long)) sim::violation("misaligned", "an element is put at an address that does not suit its type");
    }
    TElem() : v(0), cell(new long(0)) { aligned(this), sim::obj_born(this, "element"); }
    explicit TElem(long x) : v(x), cell(new long(x)) { aligned(this), sim::obj_born(this, "element"); }
    TElem(const TElem& o) : v(o.v), cell(nullptr) {
        sim::obj_used(&o, "copied element");
        if (sim::fault_here(sim::COPY, sim::F_COPY)) throw CopyFail();
        if (o.cell) cell = new long(*o.cell);
        aligned(this);
        sim::obj_born(this, "element");
    }
    TElem(TElem&& o) noexcept : v(o.v), cell(o.cell) {
        sim::obj_used(&o, "moved element");
        o.cell = nullptr;
        o.v = MOVED;
        aligned(this);
        sim::obj_born(this, "element");
    }
    TElem& operator=(const TElem& o) {
        sim::obj_used(this, "assigned element");
        sim::obj_used(&o, "copied element");
        if (this != &o) {
            if (sim::fault_here(sim::COPY, sim::F_COPY)) throw CopyFail();
            long* c = o.cell ? new long(*o.cell) : nullptr;
            delete cell;
            cell = c;
            v = o.v;
        }
        return *this;
    }
    TElem& operator=(TElem&& o) noexcept {
        sim::obj_used(this, "assigned element");
        sim::obj_used(&o, "moved element");
        if (this != &o) {
            delete cell;
            cell = o.cell;
            v = o.v;
            o.cell = nullptr;
            o.v = MOVED;
        }
        return *this;
    }
    ~TElem() {
        sim::obj_dead(this, "element");
        delete cell;
        cell = nullptr;
    }
    long get() const {
        sim::obj_used(this, "element");
        if (!cell) return MOVED;
        if (*cell != v) sim::violation("torn", "an element holds two different values %ld and %ld", v, *cell);
        return v;
    }
    bool operator==(const TElem& o) const { return get() == o.get(); }
    bool operator!=(const TElem& o) const { return get() != o.get(); }
    bool operator<(const TElem& o) const { return get() < o.get(); }
};

// several words that must stay together
struct Pod {
    long a, b, c;
    Pod() : a(0), b(0), c(0) {}
    explicit Pod(long x) : a(x), b(x), c(x) {}
    long get() const {
        if (a != b || b != c) sim::violation("torn", "a value holds parts of different values: %ld %ld %ld", a, b, c);
        return a;
    }
    bool operator==(const Pod& o) const { return get() == o.get(); }
    bool operator!=(const Pod& o) const { return get() != o.get(); }
    bool operator<(const Pod& o) const { return get() < o.get(); }
};
