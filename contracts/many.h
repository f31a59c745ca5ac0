// How a contract puts any number of further elements into the queue made last (see model/stl/deque).
#pragma once
#include <cstdint>
#include <deque>
namespace vq {
#ifdef VQ_DEQUE
inline bool moreWaiting(std::int64_t n) { if (!vq_deque::vq_last) return false; vq_deque::vq_last->vq_hidden = n; return true; }
inline std::int64_t others() { return vq_deque::vq_last->vq_hidden; }
inline std::int64_t reallyThere(std::int64_t) { return 0; }
#else
inline bool moreWaiting(std::int64_t) { return false; }
inline std::int64_t others() { return 0; }
inline std::int64_t reallyThere(std::int64_t n) { return n > 100000 ? 100000 : n; } // what a run puts in between
#endif
}
