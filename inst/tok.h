// opaque element types: only declared, the verifier knows them by their contracts
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <new>
#include <utility>
struct Tok {
    uint64_t v;
    Tok();
    explicit Tok(uint64_t);
    Tok(const Tok&);
    Tok(Tok&&);
    ~Tok();
    Tok& operator=(const Tok&);
    Tok& operator=(Tok&&);
    bool operator==(const Tok&) const;
    bool operator!=(const Tok&) const;
};
