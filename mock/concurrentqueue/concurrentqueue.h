// Stand-in for moodycamel::ConcurrentQueue used by the checks: same interface, same guarantees (unbounded MPMC, FIFO per
// producer, no order across producers, a failed dequeue means "appeared empty"), every operation is one atomic step
// under the checks' own scheduler (src/rt.hpp).
#pragma once
#include <atomic>
#include <cstddef>
#include <deque>
#include <utility>
#include <list>
#include <vector>
#include <thread>
namespace rtq {
void enter(const void *q, int op);     // scheduling point before the operation (op 0 enqueue, 1 dequeue, 2 size)
void leave(const void *q, int op, bool progress, long item); // after; failed dequeues let other threads run
int self();                            // current logical thread
int choose(const void *q, int n);      // which producer's items to take
bool visible(long item, int producer); // does the enqueue happen before the current step (else the queue may appear empty)
bool late();                           // invisible items are missed by default
long stamp();                          // fresh item number (release clock recorded)
void mute(int d);                      // +1/-1: the queue's own bookkeeping is not an access of the program
void drop(const void *q);
}
namespace moodycamel {
struct ConcurrentQueueDefaultTraits {};
struct ProducerToken { template <class Q> explicit ProducerToken(Q &) {} bool valid() const { return true; } };
struct ConsumerToken { template <class Q> explicit ConsumerToken(Q &) {} };
template <typename T, typename Traits = ConcurrentQueueDefaultTraits> class ConcurrentQueue {
    struct Lane { int producer = 0; std::deque<std::pair<long, T>> items; };
    std::list<Lane> lanes_;
    Lane &lane() { int s = rtq::self(); for (auto &l : lanes_) if (l.producer == s) return l; lanes_.emplace_back(); lanes_.back().producer = s; return lanes_.back(); }
  public:
    typedef moodycamel::ProducerToken producer_token_t; typedef moodycamel::ConsumerToken consumer_token_t;
    explicit ConcurrentQueue(size_t = 0) {}
    ConcurrentQueue(size_t, size_t, size_t) {}
    ConcurrentQueue(const ConcurrentQueue &) = delete; ConcurrentQueue &operator=(const ConcurrentQueue &) = delete;
    ConcurrentQueue(ConcurrentQueue &&o) : lanes_(std::move(o.lanes_)) {} 
    ConcurrentQueue &operator=(ConcurrentQueue &&o) { lanes_ = std::move(o.lanes_); return *this; }
    ~ConcurrentQueue() { rtq::drop(this); }
    __attribute__((no_sanitize("thread"))) bool put(T v) { rtq::enter(this, 0); long s = rtq::stamp(); rtq::mute(1); lane().items.emplace_back(s, std::move(v)); rtq::mute(-1); rtq::leave(this, 0, true, s); return true; }
    __attribute__((no_sanitize("thread"))) bool take(T &out) {
        // producers are inspected one after the other, as in the real queue: "empty" is a statement about several moments
        rtq::enter(this, 1); rtq::mute(1); bool first = true;
        for (auto i = lanes_.begin(); i != lanes_.end(); ++i) {
            if (!first) { rtq::mute(-1); rtq::enter(this, 3); rtq::mute(1); }
            first = false; if (i->items.empty()) continue;
            int n = 0; bool seen = false; for (auto l = i; l != lanes_.end(); ++l) if (!l->items.empty()) { n++; seen = seen || rtq::visible(l->items.front().first, l->producer); }
            rtq::mute(-1); int k = n > 1 || !seen ? rtq::choose(this, n + !seen) : 0; if (!seen && rtq::late()) k = k ? k - 1 : n;
            if (k == n) { rtq::leave(this, 4, false, -1); return false; }
            rtq::mute(1);
            for (auto l = i; l != lanes_.end(); ++l) if (!l->items.empty()) { if (k--) continue; long s = l->items.front().first; T tmp(std::move(l->items.front().second)); l->items.pop_front(); rtq::mute(-1); rtq::leave(this, 1, true, s); out = std::move(tmp); return true; } }
        rtq::mute(-1);
        rtq::leave(this, 1, false, -1);
        return false; }
    bool enqueue(const T &v) { return put(T(v)); } bool enqueue(T &&v) { return put(std::move(v)); }
    bool try_enqueue(const T &v) { return put(T(v)); } bool try_enqueue(T &&v) { return put(std::move(v)); }
    bool enqueue(const producer_token_t &, const T &v) { return put(T(v)); } bool enqueue(const producer_token_t &, T &&v) { return put(std::move(v)); }
    template <class U> bool try_dequeue(U &out) { return take(out); }
    template <class U> bool try_dequeue(consumer_token_t &, U &out) { return take(out); }
    template <class U> bool try_dequeue_non_interleaved(U &out) { return take(out); }
    template <class U> bool try_dequeue_from_producer(const producer_token_t &, U &out) { return take(out); }
    template <class It> bool enqueue_bulk(It it, size_t n) { for (size_t i = 0; i < n; i++, ++it) put(T(*it)); return true; }
    template <class It> bool enqueue_bulk(const producer_token_t &, It it, size_t n) { return enqueue_bulk(it, n); }
    template <class It> size_t try_dequeue_bulk(It it, size_t max) { size_t n = 0; T v; while (n < max && take(v)) { *it = std::move(v); ++it; n++; } return n; }
    template <class It> size_t try_dequeue_bulk(consumer_token_t &, It it, size_t max) { return try_dequeue_bulk(it, max); }
    __attribute__((no_sanitize("thread"))) size_t size_approx() const { rtq::enter(this, 2); rtq::mute(1); size_t n = 0; for (auto &l : lanes_) n += l.items.size(); rtq::mute(-1); rtq::leave(this, 2, true, -1); return n; }
    static constexpr bool is_lock_free() { return true; }
    void swap(ConcurrentQueue &o) { std::swap(lanes_, o.lanes_); }
};
} // namespace moodycamel
