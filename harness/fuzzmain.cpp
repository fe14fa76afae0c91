// Coverage-guided driver (libFuzzer) over the same generators and oracles as main.cpp: the first byte of an input picks the
// sub-property, the others are decoded into the choices of the case.  VT_FUZZ_RECORD names a file that receives the choices
// of the last case, so that check.py can turn an artifact into an ordinary replay file, which main.cpp confirms and shrinks.
#include "pbt.hpp"
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

using namespace pbt;

static Record *rec;
static Suite su;

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    std::cout.setstate(std::ios::badbit);
    if (const char *f = std::getenv("VT_FUZZ_RECORD")) {
        int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Record)) != 0) _exit(3);
        rec = static_cast<Record *>(mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    } else {
        rec = static_cast<Record *>(mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    su = suite();
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *data, std::size_t size) {
    if (size < 1) return 0;
    const Prop &p = su.props[data[0] % su.props.size()];
    Src s(rec, data + 1, size - 1);
    std::snprintf(rec->desc, sizeof rec->desc, "%s", p.name);
    Ctx x;
    std::srand(1);
    try {
        p.fn(s, x);
    } catch (const Discard &) {
    } catch (const Fail &f) {
        std::fprintf(stderr, "%s: %s\n", p.name, f.msg.c_str());
        std::abort();
    }
    return 0;
}
