// Simulator runtime: public interface used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const char* s);

// ---------------------------------------------------------------- fault kinds
enum FaultKind {
    F_SHORT_SEND, F_SEND_EINTR, F_SEND_RESET, F_SHORT_RECV, F_RECV_EINTR, F_RECV_RESET,
    F_ACCEPT_EINTR, F_ACCEPT_ABORT, F_ACCEPT_EMFILE,
    F_SOCKET_FAIL, F_SETSOCKOPT_FAIL, F_BIND_FAIL, F_LISTEN_FAIL, F_CONNECT_REFUSED,
    F_OPEN_FAIL, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR,
    F_READ_SHORT, F_READ_EIO, F_READ_EINTR, F_CLOSE_EIO,
    F_ALLOC_FAIL, F_SPURIOUS_WAKE, F_CLOCK_JUMP, F_CRASH, F_STALL,
    F_PEER_CLOSE, F_PEER_RESET, F_BITFLIP, F_TRUNCATE, F_PROC_READ, F_THREAD_FAIL, F_SEND_NOBUFS,
    F_COUNT
};
extern const char* const fault_names[F_COUNT];

// Decide whether the fault fires here.  `value` (1..maxv) is drawn when it does.
// Only fires for kinds the run enabled via enable_fault().
bool fault(FaultKind k, uint64_t maxv = 1, uint64_t* value = nullptr);
void enable_fault(FaultKind k, unsigned num, unsigned den);   // rate num/den at each site
void disable_faults();                                        // stop all faults ("heal")
bool fault_enabled(FaultKind k);
void note_fault(FaultKind k);                                 // harness performed this fault itself

// ---------------------------------------------------------------- workload
// A named knob: value in [lo,hi] derived from the seed, can be overridden by a replay file.
uint64_t knob(const char* name, uint64_t lo, uint64_t hi);
uint64_t pick(const char* name, const std::vector<uint64_t>& choices);
// Sequential operation index; false when the minimiser removed this operation.
bool op_keep(Rng* out_rng);
uint64_t seed();

// ---------------------------------------------------------------- results
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);                    // "this rare condition was hit"
void nontrivial();                               // this run exercised the property
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the sample text
void fold(uint64_t v);                           // add to the run's event-log hash
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // verbose replay only
uint64_t runs_steps();

// ---------------------------------------------------------------- SUT sections
// Preemption at instrumented accesses only happens inside Sut sections; harness code is atomic.
struct Sut { int old; Sut(); ~Sut(); };
struct Har { int old; Har(); ~Har(); };

// ---------------------------------------------------------------- threads and time
int  spawn(const char* name, std::function<void()> fn, bool app = true);  // returns thread id
void join(int tid);
bool joined_done(int tid);
void yield();                                    // forced scheduling decision
void sleep_ns(uint64_t ns);
uint64_t now();
void advance(uint64_t ns);
void set_clock_step(uint64_t max_step);          // per-read advance: 0 = frozen
void wait_until(const std::function<bool()>& cond, const char* what);  // blocks, re-evaluated at each scheduling decision
bool wait_until_or(const std::function<bool()>& cond, uint64_t timeout_ns, const char* what);
int  self_id();
// Kill the application at a random later moment: all `app` threads (and threads they created) stop.
void arm_crash(uint64_t global_step);            // crash when the global step counter reaches this
bool crashed();
void crash_now();                                // every app thread freezes for ever
uint64_t global_steps();
void stdin_closed();                                // the application runs without a standard input: a socket or file may get descriptor 0
bool large_run(unsigned odds);                      // true in one of so many runs: the scenario then works with sizes far above the usual ones
void set_coarse();                                  // a large run: few preemptions, many steps
void set_step_cap(uint64_t cap); void set_starvation_bound(uint64_t steps);
bool is_app_thread();

// ---------------------------------------------------------------- disk
struct Disk;
void disk_put(const std::string& path, const std::string& data);
bool disk_has(const std::string& path);
std::string disk_get(const std::string& path);
std::vector<std::string> disk_list();
void disk_capacity(uint64_t bytes);              // ENOSPC once the total written exceeds this
uint64_t disk_writes(const std::string& path);   // number of write operations that reached the file
int  disk_open_handles();
void disk_on_write(std::function<void(const std::string& path)> cb);
// /proc stand-in
void proc_put(const std::string& path, const std::string& data);
void proc_del(const std::string& path);
void press_enter(); void set_stdio_buffer(size_t n);

// ---------------------------------------------------------------- network (harness side peers)
int  net_connect(int port);                      // >=0 handle, -1 refused
int  net_listen(int port);
int  net_accept(int h);
long net_recv(int h, void* buf, size_t n);       // blocks; 0 EOF; -1 reset
long net_send(int h, const void* buf, size_t n);
void net_close(int h);                           // FIN (RST when unread data is queued)
void net_reset(int h);
bool net_refused_data(int h);                    // the system once refused to take data for this connection
size_t net_avail(int h);
bool net_port_listening(int port);
int  net_open_sut_fds();                         // descriptors opened by the code under test still open
uint64_t net_sut_sends();                        // send calls made so far by the SUT
uint64_t net_bad_closes();                      // close/use of descriptors that are not open
size_t net_unsent(int h); bool net_peer_eof(int h); bool net_peer_gone(int h); size_t net_backlog(int port);
void net_shutdown_wr(int h); void net_unlisten(int h);
int app_fd_open(); bool app_fd_intact(int fd); void app_fd_close(int fd);
const char* net_host(unsigned which);              // address of the only host that can be connected to (0: the local one)
void net_set_sndbuf(size_t n);                   // capacity of each direction for new connections

// ---------------------------------------------------------------- heap
uint64_t heap_live_sut_blocks();                 // blocks allocated in Sut sections not yet freed
uint64_t heap_live_sut_bytes();
bool heap_addressable(const void* p, size_t n);

// ---------------------------------------------------------------- custom exits
void set_exit_trap(std::function<void(int)> f);

struct Scenario { const char* prop; const char* name; void (*run)(); unsigned weight; };
void register_scenario(const Scenario& s);
struct Reg { Reg(const char* p, const char* n, void (*f)(), unsigned w = 1) { register_scenario({p, n, f, w}); } };
} // namespace sim
