// Native side of the replay: the same harness, with concrete inputs, against the real build.
#include <dlfcn.h>
#include <setjmp.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
static std::map<uint64_t, uint64_t> in;
static jmp_buf jb;
static std::string obs, fails;
extern "C" {
uint64_t sym_u64(uint64_t id) { return in.count(id) ? in[id] : 0; }
void sym_assume(bool c) {
    if (!c) longjmp(jb, 1);
}
void sym_assert(bool c, uint64_t id) {
    if (!c) fails += " FAIL:" + std::to_string(id);
}
void sym_observe(uint64_t id, uint64_t v) {
    char b[64];
    snprintf(b, sizeof b, " %llu=%llX", (unsigned long long)id, (unsigned long long)v);
    obs += b;
}
uint64_t sym_id(uint64_t x) { return x; }
void sym_split(uint64_t, uint64_t) {}
void sym_fork(uint64_t, uint64_t, uint64_t) {}
}
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) {
        fprintf(stderr, "no entry %s\n", argv[1]);
        return 3;
    }
    std::ifstream is(argv[2]);
    std::string line;
    while (std::getline(is, line)) {
        std::istringstream ls(line);
        in.clear();
        uint64_t id, v;
        while (ls >> id >> std::hex >> v >> std::dec) in[id] = v;
        obs.clear();
        fails.clear();
        if (setjmp(jb) == 0) {
            f();
            printf("V%s%s\n", obs.c_str(), fails.c_str());
        } else
            printf("V%s ASSUME%s\n", obs.c_str(), fails.c_str());
        fflush(stdout);
    }
    return 0;
}
