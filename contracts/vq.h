// Specification primitives. Interpreted symbolically by engine/, executed concretely by native/rt.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// Universally quantified inputs
bool vq_bool(const char *name);
std::int64_t vq_i64(const char *name);
std::int32_t vq_i32(const char *name);
unsigned vq_choose(unsigned n, const char *name); // forks: 0..n-1
void vq_assume(bool cond);
void vq_ensure(bool cond, const char *name);      // named obligation
void vq_unreachable(const char *name);            // obligation: never reached
void vq_cover(const char *name);                  // must be reachable (vacuity guard)
void vq_cut(const char *name);                    // invariant cut point (history/loop)
void vq_loop(const char *name);                    // the same, generalising the amounts that vary from round to round
void vq_end();                                    // end of the explored history on this path
std::int64_t vq_live_heap();                      // number of live heap blocks
void vq_silent_alloc(int delta);                  // >0: following allocations belong to the model
void vq_undef(void *p, std::size_t n);              // contents become unspecified
bool vq_symbolic();                               // true when interpreted by the verifier
void vq_mark_model(void *p);                      // the block belongs to the contract, not to the code
}
#define VQ_CONTRACT(ID, NAME) extern "C" __attribute__((used)) void vqh_##ID##_##NAME()
#define VQ_REQUIRE(c) vq_assume(c)
#define VQ_ENSURE(c, name) vq_ensure((c), name)
#define VQ_COVER(name) vq_cover(name)
