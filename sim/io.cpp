// Simulated network, disk, /proc and terminal: every descriptor the code under test can reach.
#include "rt_internal.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <stdio_ext.h>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
// ----------------------------------------------------------------- byte pipes and endpoints
struct Pipe {
    std::deque<char> q;
    size_t cap;
    bool fin = false;        // writer finished
    bool rst = false;        // connection reset
    bool rd_closed = false;  // reader is gone
    bool refused = false;    // a send failed although the connection is fine
    int grace = 0;           // writes that still "succeed" after the reader went away
};
struct End {
    std::shared_ptr<Pipe> in, out;
    bool shut_rd = false, shut_wr = false, err_reported = false, closed = false;
    int port = 0;
    bool accepted = false;
};
static size_t g_sndbuf = 65536;
static std::map<int, int>* g_timewait;       // port -> number of lingering server-side connections
static uint64_t g_sends, g_badclose;

static void end_close(End& e, bool reset) {
    if (e.closed) return;
    e.closed = true;
    if (!e.in) return;
    bool unread = !e.in->q.empty();
    if (reset || unread) {
        e.in->rst = e.out->rst = true;
        e.in->q.clear();
    } else {
        e.out->fin = true;
        e.in->rd_closed = true;
        e.in->grace = (int)(mix(seed() ^ 0x97ace, global_steps()) % 2);
        if (e.accepted && !e.in->fin) (*g_timewait)[e.port]++;
    }
}
struct Listener {
    int port = 0; bool listening = false, local = false; size_t backlog = 1;
    std::deque<std::shared_ptr<End>> q;
};
static std::map<int, std::weak_ptr<Listener>>* g_ports;

struct FileData { std::string data; uint64_t writes = 0; };
enum ObjType { O_SOCK, O_FILE };
struct Obj {
    ObjType type = O_SOCK;
    bool nonblock = false, reuse = false, bound = false, local = false, connected = false, sut = true;
    uint64_t rcvto = 0, sndto = 0;
    int port = 0;
    std::shared_ptr<Listener> lst;
    std::shared_ptr<End> end;
    // file
    std::string path; std::shared_ptr<FileData> fd; size_t off = 0; bool append = false, rd = false, wr = false, proc = false;
    ~Obj() {
        if (end) end_close(*end, false);
        if (lst) { lst->listening = false; for (auto& e : lst->q) end_close(*e, true); lst->q.clear(); }
    }
};
typedef std::shared_ptr<Obj> ObjP;
enum { FD_BASE = 500, FD_MAX = 500 };
static bool g_fd0;                               // the application has closed its standard input: descriptor 0 is the first one handed out
static inline int fd_of(int slot) { return g_fd0 && slot == 0 ? 0 : FD_BASE + slot; }
static inline int slot_of(int fd) { return fd ? fd - FD_BASE : 0; }
static ObjP* g_fds;
static std::map<std::string, std::shared_ptr<FileData>>* g_disk;
static std::map<std::string, std::string>* g_proc;
static uint64_t g_disk_cap, g_disk_total;
static std::vector<std::shared_ptr<End>>* g_peers;      // harness handles
static std::vector<std::shared_ptr<Listener>>* g_hlst;
static std::function<void(const std::string&)>* g_on_write;
struct FileRec { int fd; ObjP obj; int owner; int depth; };
static std::map<FILE*, FileRec>* g_files;
static int g_enter;
static size_t g_vbuf;

void fs_reset() {
    g_timewait = new std::map<int, int>();
    g_ports = new std::map<int, std::weak_ptr<Listener>>();
    g_fds = new ObjP[FD_MAX];
    g_disk = new std::map<std::string, std::shared_ptr<FileData>>();
    g_proc = new std::map<std::string, std::string>();
    g_disk_cap = ~0ull; g_disk_total = 0;
    g_peers = new std::vector<std::shared_ptr<End>>();
    g_hlst = new std::vector<std::shared_ptr<Listener>>();
    g_on_write = new std::function<void(const std::string&)>();
    g_files = new std::map<FILE*, FileRec>();
    g_enter = 0;
}

// Allocations made by the simulator itself must not be counted as the application's.
static int alloc_fd(ObjP o) {
    for (int i = 0; i < FD_MAX; i++) if (!g_fds[i]) { g_fds[i] = o; return fd_of(i); }
    return -1;
}
static bool is_sim_fd(int fd) { return g_fd0 && fd < FD_BASE + 1 ? fd == 0 : fd >= FD_BASE && fd < FD_BASE + FD_MAX; }
static ObjP get(int fd) { if (!is_sim_fd(fd) || !g_fds[slot_of(fd)]) return nullptr; return g_fds[slot_of(fd)]; }
static ObjP get_sock(int fd, int* err) {
    if (fd < 0) { *err = EBADF; return nullptr; }
    ObjP o = get(fd);
    if (!o) { *err = EBADF; return nullptr; }
    if (o->type != O_SOCK) { *err = ENOTSOCK; return nullptr; }
    return o;
}
static int ret_err(int e) { errno = e; return -1; }

static void make_pair(std::shared_ptr<End>& a, std::shared_ptr<End>& b, int port) {
    auto p = std::make_shared<Pipe>(), q = std::make_shared<Pipe>();
    p->cap = q->cap = g_sndbuf;
    a = std::make_shared<End>(); b = std::make_shared<End>();
    a->in = p; a->out = q; b->in = q; b->out = p;
    a->port = b->port = port;
}

// ----------------------------------------------------------------- harness peers
static std::shared_ptr<Listener> find_listener(int port) {
    auto it = g_ports->find(port);
    if (it == g_ports->end()) return nullptr;
    auto l = it->second.lock();
    return l && l->listening ? l : nullptr;
}
int net_connect(int port) {
    yield();
    auto l = find_listener(port);
    if (!l || l->local) return -1;   // from another host
    auto room = [&] { return !l->listening || l->q.size() <= l->backlog; };
    while (!room()) block_on(room, "connect (backlog full)", nullptr);
    if (!l->listening) return -1;
    std::shared_ptr<End> c, s; make_pair(c, s, port); s->accepted = true;
    l->q.push_back(s);
    g_peers->push_back(c);
    trace("peer %d connected to port %d", (int)g_peers->size() - 1, port);
    return (int)g_peers->size() - 1;
}
static const char* g_host = "127.0.0.1";
const char* net_host(unsigned which) { static const char* const v[] = {"127.0.0.1", "192.168.100.200", "10.0.0.7", "255.255.255.254", "1.2.3.4"}; return g_host = v[which % 5]; }
int net_listen(int port) {
    auto l = std::make_shared<Listener>(); l->port = port; l->listening = true; l->backlog = 16;
    (*g_ports)[port] = l; g_hlst->push_back(l);
    return (int)g_hlst->size() - 1;
}
void net_unlisten(int h) { auto& l = (*g_hlst)[h]; l->listening = false; for (auto& e : l->q) end_close(*e, true); l->q.clear(); }
int net_accept(int h) {
    auto l = (*g_hlst)[h];
    auto f = [&] { return !l->q.empty() || !l->listening; };
    while (!f()) block_on(f, "peer accept", nullptr);
    if (l->q.empty()) return -1;
    g_peers->push_back(l->q.front()); l->q.pop_front();
    return (int)g_peers->size() - 1;
}
static bool rd_ready(End& e) { return !e.in->q.empty() || e.in->fin || e.in->rst || e.shut_rd; }
long net_recv(int h, void* buf, size_t n) {
    auto e = (*g_peers)[h];
    auto f = [&] { return rd_ready(*e) || e->closed; };
    while (!f()) block_on(f, "peer recv", nullptr);
    if (e->closed) return -1;
    if (!e->in->q.empty()) {
        size_t k = e->in->q.size() < n ? e->in->q.size() : n;
        for (size_t i = 0; i < k; i++) { ((char*)buf)[i] = e->in->q.front(); e->in->q.pop_front(); }
        return (long)k;
    }
    if (e->in->rst) return -1;
    return 0;
}
long net_send(int h, const void* buf, size_t n) {
    auto e = (*g_peers)[h];
    size_t done = 0;
    while (done < n) {
        auto f = [&] { return e->closed || e->out->rst || e->out->rd_closed || e->out->q.size() < e->out->cap; };
        while (!f()) block_on(f, "peer send", nullptr);
        if (e->closed || e->out->rst || e->out->rd_closed) return -1;
        size_t k = std::min(n - done, e->out->cap - e->out->q.size());
        e->out->q.insert(e->out->q.end(), (const char*)buf + done, (const char*)buf + done + k);
        done += k;
    }
    return (long)n;
}
void net_close(int h) { end_close(*(*g_peers)[h], false); }
bool net_refused_data(int h) { return (*g_peers)[h]->in->refused; }
void net_reset(int h) { end_close(*(*g_peers)[h], true); }
void net_shutdown_wr(int h) { auto& e = *(*g_peers)[h]; e.shut_wr = true; e.out->fin = true; }
size_t net_avail(int h) { return (*g_peers)[h]->in->q.size(); }
size_t net_unsent(int h) { return (*g_peers)[h]->out->q.size(); }
bool net_peer_eof(int h) { auto& e = *(*g_peers)[h]; return e.in->q.empty() && (e.in->fin || e.in->rst); }
bool net_peer_gone(int h) { auto& e = *(*g_peers)[h]; return e.in->fin || e.in->rst; }
bool net_port_listening(int port) { return find_listener(port) != nullptr; }
size_t net_backlog(int port) { auto l = find_listener(port); return l ? l->q.size() : 0; }
int net_open_sut_fds() { int n = 0; for (int i = 0; i < FD_MAX; i++) if (g_fds[i] && g_fds[i]->sut) n++; return n; }
uint64_t net_sut_sends() { return g_sends; }
uint64_t net_bad_closes() { return g_badclose; }
void net_set_sndbuf(size_t n) { g_sndbuf = n; }
// A descriptor that belongs to the rest of the application: nobody else may touch it.
void stdin_closed() { if (knob("no_stdin", 0, 5) == 5) { g_fd0 = true; probe("descriptor 0 in use"); } }
int app_fd_open() { ObjP o = std::make_shared<Obj>(); o->sut = false; std::shared_ptr<End> a, b; make_pair(a, b, 0); o->end = a; o->connected = true; g_peers->push_back(b); return alloc_fd(o); }
bool app_fd_intact(int fd) { ObjP o = get(fd); return o && !o->sut && o->end && o->end->out->q.empty() && !o->end->shut_rd && !o->end->shut_wr; }
void app_fd_close(int fd) { ObjP o = get(fd); if (o && !o->sut) g_fds[slot_of(fd)].reset(); }

// ----------------------------------------------------------------- disk
void disk_put(const std::string& p, const std::string& d) { auto f = std::make_shared<FileData>(); f->data = d; (*g_disk)[p] = f; }
bool disk_has(const std::string& p) { return g_disk->count(p) != 0; }
std::string disk_get(const std::string& p) { auto it = g_disk->find(p); return it == g_disk->end() ? std::string() : it->second->data; }
std::vector<std::string> disk_list() { std::vector<std::string> v; for (auto& k : *g_disk) v.push_back(k.first); return v; }
void disk_capacity(uint64_t b) { g_disk_cap = b; }
uint64_t disk_writes(const std::string& p) { auto it = g_disk->find(p); return it == g_disk->end() ? 0 : it->second->writes; }
int disk_open_handles() { int n = 0; for (int i = 0; i < FD_MAX; i++) if (g_fds[i] && g_fds[i]->type == O_FILE && g_fds[i]->sut) n++; return n; }
void disk_on_write(std::function<void(const std::string&)> cb) { *g_on_write = cb; }
void proc_put(const std::string& p, const std::string& d) { (*g_proc)[p] = d; }
void proc_del(const std::string& p) { g_proc->erase(p); }
void press_enter() { g_enter++; }
void set_stdio_buffer(size_t n) { g_vbuf = n; }

// Whatever the code under test writes goes to the simulated disk; real files (Python's modules) can only be read.
static bool sim_path(const char* p, std::string* proc_key, bool writes = false) {
    if (!in_sim()) return false;
    if (!strncmp(p, "/sim/", 5) || writes || p[0] != '/') return true;
    if (!strncmp(p, "/proc/", 6)) {
        const char* s = p + 6;
        if (!strncmp(s, "self/", 5)) s += 5;
        else { const char* d = s; while (*d >= '0' && *d <= '9') d++; if (d != s && *d == '/' && atoi(s) == getpid()) s = d + 1; }   // other processes: "<pid>/<file>"
        *proc_key = s; return true;
    }
    return false;
}
static ObjP open_obj(const char* path, bool rd, bool wr, bool creat, bool trunc, bool append, bool excl, int* err) {
    std::string pk;
    sim_path(path, &pk);
    sync_point(K_FILE);
    ObjP o = std::make_shared<Obj>(); o->type = O_FILE; o->path = path; o->rd = rd; o->wr = wr; o->append = append;
    if (!pk.empty()) {
        if (wr) { *err = EACCES; return nullptr; }
        if (fault(F_OPEN_FAIL)) { *err = EMFILE; return nullptr; }
        auto it = g_proc->find(pk);
        if (it == g_proc->end()) { *err = ENOENT; return nullptr; }
        o->fd = std::make_shared<FileData>(); o->fd->data = it->second; o->proc = true;
        return o;
    }
    if (fault(F_OPEN_FAIL)) { *err = wr ? EACCES : EMFILE; return nullptr; }
    auto it = g_disk->find(path);
    if (it == g_disk->end()) {
        if (!creat) { *err = ENOENT; return nullptr; }
        (*g_disk)[path] = o->fd = std::make_shared<FileData>();
    } else {
        if (creat && excl) { *err = EEXIST; return nullptr; }
        o->fd = it->second;
        if (trunc) o->fd->data.clear();
    }
    return o;
}
static ssize_t file_write(Obj& o, const char* b, size_t n) {
    sync_point(K_FILE);
    if (!o.wr) return ret_err(EBADF);
    if (!n) return 0;
    uint64_t v;
    if (fault(F_WRITE_EINTR)) return ret_err(EINTR);
    if (fault(F_WRITE_EIO)) return ret_err(EIO);
    if (fault(F_WRITE_ENOSPC)) return ret_err(ENOSPC);
    if (n > 1 && fault(F_WRITE_SHORT, n - 1, &v)) n = v;
    if (g_disk_total + n > g_disk_cap) {
        if (g_disk_total >= g_disk_cap) { note_fault(F_WRITE_ENOSPC); return ret_err(ENOSPC); }
        n = g_disk_cap - g_disk_total;
    }
    g_disk_total += n;
    if (o.append) o.off = o.fd->data.size();
    if (o.fd->data.size() < o.off + n) o.fd->data.resize(o.off + n);
    memcpy(&o.fd->data[o.off], b, n);
    o.off += n; o.fd->writes++;
    fold(n);
    trace("write %zu bytes to %s (size now %zu)", n, o.path.c_str(), o.fd->data.size());
    if (*g_on_write) (*g_on_write)(o.path);
    sync_point(K_FILE);
    return (ssize_t)n;
}
static ssize_t file_read(Obj& o, char* b, size_t n) {
    sync_point(K_FILE);
    if (!o.rd) return ret_err(EBADF);
    uint64_t v;
    if (fault(F_READ_EINTR)) return ret_err(EINTR);
    if (fault(F_READ_EIO)) return ret_err(EIO);
    size_t left = o.off < o.fd->data.size() ? o.fd->data.size() - o.off : 0;
    if (n > left) n = left;
    if (n > 1 && fault(F_READ_SHORT, n - 1, &v)) n = v;
    memcpy(b, o.fd->data.data() + o.off, n);
    o.off += n;
    return (ssize_t)n;
}
static ssize_t ck_read(void* c, char* b, size_t n) { Har h; return file_read(**(ObjP*)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    Har h;
    size_t done = 0;
    while (done < n) { ssize_t r = file_write(**(ObjP*)c, b + done, n - done); if (r < 0) break; done += r; }
    return done ? (ssize_t)done : 0;   // a short count makes stdio set the error flag, as for a real file
}
static int ck_seek(void* c, off64_t* off, int wh) {
    Obj& o = **(ObjP*)c;
    off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o.off : (off64_t)o.fd->data.size();
    if (base + *off < 0) return ret_err(EINVAL);
    o.off = base + *off; *off = o.off; return 0;
}
static int ck_close(void* c) {
    Har h;
    sync_point(K_FILE);
    delete (ObjP*)c;
    if (fault(F_CLOSE_EIO)) return ret_err(EIO);
    return 0;
}
static FILE* sim_fopen(const char* path, const char* mode) {
    Har h;
    bool plus = strchr(mode, '+') != nullptr, rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
    int err = 0;
    ObjP o = open_obj(path, rd, wr, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a', strchr(mode, 'x') != nullptr, &err);
    if (!o) { errno = err; return nullptr; }
    int fd = alloc_fd(o);
    if (fd < 0) { errno = EMFILE; return nullptr; }
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f;
    { f = fopencookie(new ObjP(o), mode, io); }
    if (!f) { g_fds[slot_of(fd)].reset(); errno = ENOMEM; return nullptr; }
    __fsetlocking(f, FSETLOCKING_BYCALLER);
    if (g_vbuf) { if (g_vbuf == 1) setvbuf(f, nullptr, _IONBF, 0); else setvbuf(f, nullptr, _IOFBF, g_vbuf); }
    (*g_files)[f] = {fd, o, 0, 0};
    trace("fopen %s -> fd %d", path, fd);
    return f;
}
// The per-FILE lock that stdio would take.
struct FLock {
    FILE* f; FileRec* r;
    explicit FLock(FILE* f_, const char* what) : f(f_), r(nullptr) {
        if (!in_sim() || !f) return;
        auto it = g_files->find(f);
        if (it == g_files->end()) { heap_check(f, sizeof(FILE), what); return; }
        r = &it->second;
        int me = self_id() + 1;
        if (r->owner == me) { r->depth++; return; }
        auto rdy = [&] { auto i = g_files->find(f); return i == g_files->end() || i->second.owner == 0; };
        while (!rdy()) block_on(rdy, "FILE lock", f);
        it = g_files->find(f);
        if (it == g_files->end()) { r = nullptr; heap_check(f, sizeof(FILE), what); return; }
        r = &it->second; r->owner = me; r->depth = 1;
    }
    ~FLock() { if (r && --r->depth == 0) r->owner = 0; }
};

// ----------------------------------------------------------------- socket calls
static bool sigpipe_fatal() {
    struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa);
    if (sa.sa_handler == SIG_IGN) return false;
    sigset_t m; pthread_sigmask(SIG_SETMASK, nullptr, &m);
    if (sigismember(&m, SIGPIPE)) return false;
    if (sa.sa_handler != SIG_DFL) return false;
    return true;
}
static ssize_t do_send(int fd, const char* b, size_t n, int flags) {
    Har h;
    sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err);
    if (!o) { g_badclose += is_sim_fd(fd); return ret_err(err); }
    g_sends++;
    if (!o->end) return ret_err(ENOTCONN);
    auto e = o->end;
    uint64_t v;
    auto dead = [&]() -> ssize_t {
        if (e->out->rst && !e->err_reported && !e->shut_wr && !e->out->rd_closed) { e->err_reported = true; return ret_err(ECONNRESET); }
        if (!(flags & MSG_NOSIGNAL) && sigpipe_fatal()) fail("killed-by-SIGPIPE", "send on a connection whose peer is gone raised SIGPIPE: the traced application dies");
        return ret_err(EPIPE);
    };
    if (e->shut_wr) return dead();
    if (fault(F_SEND_RESET)) { e->in->rst = e->out->rst = true; e->in->q.clear(); }
    if (e->out->rst) return dead();
    if (e->out->rd_closed) { if (e->out->grace-- > 0) { probe("send-after-peer-close"); return (ssize_t)n; } return dead(); }
    if (!n) return 0;
    if (fault(F_SEND_EINTR)) return ret_err(EINTR);
    if (fault(F_SEND_NOBUFS, 2, &v)) { e->out->refused = true; return ret_err(v == 1 ? ENOBUFS : ENOMEM); }
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    if (e->out->q.size() >= e->out->cap) {
        if (nb) return ret_err(EAGAIN);
        probe("send-blocked-on-full-buffer");
        auto f = [&] { return e->out->q.size() < e->out->cap || e->out->rst || e->out->rd_closed || e->shut_wr; };
        uint64_t dl = o->sndto ? now() + o->sndto : ~0ull;
        while (!f()) if (!block_on(f, "send", nullptr, dl) && !f()) return ret_err(EAGAIN);
        if (e->shut_wr || e->out->rst || e->out->rd_closed) return dead();
    }
    size_t room = e->out->cap - e->out->q.size();
    size_t k = n < room ? n : room;
    if (k > 1 && fault(F_SHORT_SEND, k - 1, &v)) k = v;
    e->out->q.insert(e->out->q.end(), b, b + k);
    fold(k); 
    trace("send fd %d: %zu of %zu bytes", fd, k, n);
    // A blocking send only returns short when interrupted: otherwise it waits for more room.
    sync_point(K_SOCK);
    return (ssize_t)k;
}
static ssize_t do_recv(int fd, char* b, size_t n, int flags) {
    Har h;
    sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err);
    if (!o) return ret_err(err);
    if (!o->end) return ret_err(ENOTCONN);
    auto e = o->end;
    uint64_t v;
    if (fault(F_RECV_RESET)) { e->in->rst = e->out->rst = true; e->in->q.clear(); }
    if (fault(F_RECV_EINTR)) return ret_err(EINTR);
    if (flags & MSG_OOB) return ret_err(EINVAL);  // no urgent data is ever sent
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    if (!rd_ready(*e)) {
        if (nb) return ret_err(EAGAIN);
        auto f = [&] { return rd_ready(*e); };
        uint64_t dl = o->rcvto ? now() + o->rcvto : ~0ull;
        while (!f()) if (!block_on(f, "recv", nullptr, dl) && !f()) return ret_err(EAGAIN);
    }
    if (!e->in->q.empty() && !e->shut_rd) {
        size_t k = e->in->q.size() < n ? e->in->q.size() : n;
        if (k > 1 && fault(F_SHORT_RECV, k - 1, &v)) k = v;
        if (flags & MSG_PEEK) { for (size_t i = 0; i < k; i++) b[i] = e->in->q[i]; }
        else for (size_t i = 0; i < k; i++) { b[i] = e->in->q.front(); e->in->q.pop_front(); }
        fold(k);
        trace("recv fd %d: %zu bytes", fd, k);
        return (ssize_t)k;
    }
    if (e->in->rst && !e->err_reported) { e->err_reported = true; return ret_err(ECONNRESET); }
    return 0;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l) {
    Har h;
    sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err);
    if (!o) return ret_err(err);
    if (!o->lst || !o->lst->listening) return ret_err(EINVAL);
    if (fault(F_ACCEPT_EINTR)) return ret_err(EINTR);
    auto ls = o->lst;
    auto f = [&] { return !ls->q.empty() || !ls->listening; };
    if (!f()) {
        if (o->nonblock) return ret_err(EAGAIN);
        uint64_t dl = o->rcvto ? now() + o->rcvto : ~0ull;
        while (!f()) if (!block_on(f, "accept", nullptr, dl) && !f()) return ret_err(EAGAIN);
    }
    if (!ls->listening) return ret_err(EINVAL);
    if (fault(F_ACCEPT_EMFILE)) return ret_err(EMFILE);
    if (fault(F_ACCEPT_ABORT)) { end_close(*ls->q.front(), true); ls->q.pop_front(); return ret_err(ECONNABORTED); }
    ObjP c = std::make_shared<Obj>(); c->end = ls->q.front(); c->connected = true; c->port = ls->port; ls->q.pop_front();
    int cfd = alloc_fd(c);
    if (cfd < 0) return ret_err(EMFILE);
    if (a && l) { struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_addr.s_addr = htonl(INADDR_LOOPBACK); si.sin_port = htons(40000); memcpy(a, &si, *l < sizeof si ? *l : sizeof si); *l = sizeof si; }
    trace("accept fd %d -> %d", fd, cfd);
    sync_point(K_SOCK);
    return cfd;
}
static short poll_events(Obj& o, short want) {
    short r = 0;
    if (o.type == O_FILE) return want & (POLLIN | POLLOUT);
    if (o.lst) { if (!o.lst->listening) r |= POLLHUP | POLLIN; else if (!o.lst->q.empty()) r |= POLLIN; }
    else if (o.end) {
        if (rd_ready(*o.end)) r |= POLLIN;
        if (o.end->out->q.size() < o.end->out->cap || o.end->out->rst || o.end->out->rd_closed || o.end->shut_wr) r |= POLLOUT;
        if (o.end->in->rst) r |= POLLERR | POLLHUP;
        if (o.end->shut_rd && o.end->shut_wr) r |= POLLHUP;
    } else r |= POLLOUT | POLLHUP;
    return r & (want | POLLERR | POLLHUP);
}
} // namespace sim

using namespace sim;
#define REAL(name) static decltype(&name) real_ = (decltype(&name))real_sym(#name)
extern "C" {
int socket(int d, int t, int p) {
    if (!in_sim()) { REAL(socket); return real_(d, t, p); }
    Har h; sync_point(K_SOCK);
    if (fault(F_SOCKET_FAIL)) return ret_err(EMFILE);
    ObjP o = std::make_shared<Obj>(); if (t & SOCK_NONBLOCK) o->nonblock = true;
    int fd = alloc_fd(o); trace("socket -> %d", fd); return fd < 0 ? ret_err(EMFILE) : fd;
}
int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t n) {
    if (!is_sim_fd(fd)) { if (in_sim()) return ret_err(EBADF); REAL(setsockopt); return real_(fd, lvl, opt, v, n); }
    Har h; sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err); if (!o) return ret_err(err);
    if (fault(F_SETSOCKOPT_FAIL)) return ret_err(ENOPROTOOPT);
    if (lvl == SOL_SOCKET && opt == SO_REUSEADDR) o->reuse = *(const int*)v != 0;
    if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n >= sizeof(struct timeval)) {
        const struct timeval* tv = (const struct timeval*)v;
        (opt == SO_RCVTIMEO ? o->rcvto : o->sndto) = (uint64_t)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull;
    }
    return 0;
}
int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* n) {
    if (!is_sim_fd(fd)) { if (in_sim()) return ret_err(EBADF); REAL(getsockopt); return real_(fd, lvl, opt, v, n); }
    if (v && n && *n >= sizeof(int)) { ObjP o = get(fd); *(int*)v = (opt == SO_ERROR && o && o->end && o->end->in->rst) ? ECONNRESET : 0; }
    return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept {
    if (!is_sim_fd(fd)) { if (in_sim()) return ret_err(EBADF); REAL(bind); return real_(fd, a, n); }
    Har h; sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err); if (!o) return ret_err(err);
    if (fault(F_BIND_FAIL)) return ret_err(EADDRINUSE);
    int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
    if (find_listener(port)) return ret_err(EADDRINUSE);
    if (!o->reuse && (*g_timewait)[port]) { probe("bind-refused-timewait"); return ret_err(EADDRINUSE); }
    o->port = port; o->bound = true; o->local = ((const struct sockaddr_in*)a)->sin_addr.s_addr != htonl(INADDR_ANY); return 0;
}
int listen(int fd, int bl) noexcept {
    if (!is_sim_fd(fd)) { if (in_sim()) return ret_err(EBADF); REAL(listen); return real_(fd, bl); }
    Har h; sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err); if (!o) return ret_err(err);
    if (fault(F_LISTEN_FAIL)) return ret_err(EADDRINUSE);
    if (find_listener(o->port)) return ret_err(EADDRINUSE);
    o->lst = std::make_shared<Listener>(); o->lst->port = o->port; o->lst->local = o->local; o->lst->listening = true; o->lst->backlog = bl > 0 ? bl : 0;
    (*g_ports)[o->port] = o->lst;
    trace("listen fd %d port %d", fd, o->port);
    return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { if (!in_sim()) { REAL(accept); return real_(fd, a, l); } return do_accept(fd, a, l); }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
    if (!in_sim()) { REAL(accept4); return real_(fd, a, l, fl); }
    int c = do_accept(fd, a, l); if (c >= 0 && (fl & SOCK_NONBLOCK)) get(c)->nonblock = true; return c;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
    if (!in_sim()) { REAL(connect); return real_(fd, a, n); }
    Har h; sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err); if (!o) return ret_err(err);
    if (o->connected) return ret_err(EISCONN);
    if (fault(F_CONNECT_REFUSED)) return ret_err(ECONNREFUSED);
    int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
    if (((const struct sockaddr_in*)a)->sin_addr.s_addr != inet_addr(g_host)) { probe("connect to another host"); return ret_err(ENETUNREACH); }   // the only host there is
    auto l = find_listener(port);
    if (!l) return ret_err(ECONNREFUSED);
    auto room = [&] { return !l->listening || l->q.size() <= l->backlog; };
    while (!room()) block_on(room, "connect (backlog full)", nullptr);
    if (!l->listening) return ret_err(ECONNREFUSED);
    std::shared_ptr<End> c, s; make_pair(c, s, port); s->accepted = true;
    l->q.push_back(s); o->end = c; o->connected = true;
    trace("connect fd %d port %d", fd, port);
    sync_point(K_SOCK);
    return 0;
}
ssize_t send(int fd, const void* b, size_t n, int fl) { if (!in_sim()) { REAL(send); return real_(fd, b, n, fl); } heap_check(b, n, "send of data"); return do_send(fd, (const char*)b, n, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if (!in_sim()) { REAL(sendto); return real_(fd, b, n, fl, a, l); } heap_check(b, n, "send of data"); return do_send(fd, (const char*)b, n, fl); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
    if (!in_sim()) { REAL(sendmsg); return real_(fd, m, fl); }
    std::string all; { Har h; for (size_t i = 0; i < m->msg_iovlen; i++) { heap_check(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, "send of data"); all.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); } }
    return do_send(fd, all.data(), all.size(), fl);
}
ssize_t recv(int fd, void* b, size_t n, int fl) { if (!in_sim()) { REAL(recv); return real_(fd, b, n, fl); } heap_check(b, n, "recv into buffer"); return do_recv(fd, (char*)b, n, fl); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if (!in_sim()) { REAL(recvfrom); return real_(fd, b, n, fl, a, l); } return do_recv(fd, (char*)b, n, fl); }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
int shutdown(int fd, int how) noexcept {
    if (!is_sim_fd(fd)) { if (in_sim()) return ret_err(EBADF); REAL(shutdown); return real_(fd, how); }
    Har h; sync_point(K_SOCK);
    int err; ObjP o = get_sock(fd, &err); if (!o) return ret_err(err);
    trace("shutdown fd %d", fd);
    if (o->lst) { o->lst->listening = false; for (auto& e : o->lst->q) end_close(*e, true); o->lst->q.clear(); }
    else if (o->end) {
        if (how != SHUT_WR) { o->end->shut_rd = true; }
        if (how != SHUT_RD && !o->end->shut_wr) { o->end->shut_wr = true; o->end->out->fin = true; if (o->end->accepted && !o->end->in->fin) (*g_timewait)[o->end->port]++; }
    } else return ret_err(ENOTCONN);
    sync_point(K_SOCK);
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept {
    if (!is_sim_fd(fd)) { if (in_sim()) return ret_err(EBADF); REAL(getsockname); return real_(fd, a, l); }
    ObjP o = get(fd); struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_port = htons(o ? o->port : 0); memcpy(a, &si, *l < sizeof si ? *l : sizeof si); *l = sizeof si; return 0;
}
int close(int fd) {
    if (!is_sim_fd(fd)) { if (in_sim() && in_sut()) { if (fd >= 0) g_badclose++; return ret_err(EBADF); } return syscall(SYS_close, fd); }
    Har h; if (in_sim()) sync_point(K_SOCK);
    if (!get(fd)) { g_badclose++; return ret_err(EBADF); }
    trace("close fd %d", fd);
    ObjP o = std::move(g_fds[slot_of(fd)]); g_fds[slot_of(fd)].reset();
    if (!o->sut) fail("foreign-descriptor-closed", "a descriptor belonging to the application (fd %d) was closed", fd);
    o.reset();
    if (in_sim()) sync_point(K_SOCK);
    return 0;
}
ssize_t write(int fd, const void* b, size_t n) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_write, fd, b, n);
    Har h; ObjP o = get(fd); if (!o) return ret_err(EBADF);
    heap_check(b, n, "write of data");
    return o->type == O_FILE ? file_write(*o, (const char*)b, n) : do_send(fd, (const char*)b, n, 0);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_writev, fd, v, c);
    std::string all; { Har h; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); }
    return write(fd, all.data(), all.size());
}
ssize_t read(int fd, void* b, size_t n) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_read, fd, b, n);
    Har h; ObjP o = get(fd); if (!o) return ret_err(EBADF);
    return o->type == O_FILE ? file_read(*o, (char*)b, n) : do_recv(fd, (char*)b, n, 0);
}
off64_t lseek64(int fd, off64_t off, int wh) noexcept {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_lseek, fd, off, wh);
    ObjP o = get(fd); if (!o) return ret_err(EBADF);
    if (o->type != O_FILE) return ret_err(ESPIPE);
    off64_t x = off; if (ck_seek(&o, &x, wh)) return -1; return x;
}
off_t lseek(int fd, off_t off, int wh) noexcept { return lseek64(fd, off, wh); }
static int do_open(const char* p, int fl, int mode) {
    std::string pk;
    if (!sim_path(p, &pk, (fl & O_ACCMODE) != O_RDONLY || fl & (O_CREAT | O_TRUNC))) return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    Har h; int err = 0, acc = fl & O_ACCMODE;
    ObjP o = open_obj(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL, &err);
    if (!o) return ret_err(err);
    int fd = alloc_fd(o); return fd < 0 ? ret_err(EMFILE) : fd;
}
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int fsync(int fd) { if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_fsync, fd); sync_point(K_FILE); return 0; }
int fdatasync(int fd) { if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_fdatasync, fd); sync_point(K_FILE); return 0; }
int fstat(int fd, struct stat* s) noexcept {
    if (!is_sim_fd(fd) || !in_sim()) { REAL(fstat); return real_(fd, s); }
    ObjP o = get(fd); if (!o) return ret_err(EBADF);
    memset(s, 0, sizeof *s); s->st_mode = o->type == O_FILE ? S_IFREG | 0644 : S_IFSOCK; s->st_size = o->fd ? o->fd->data.size() : 0; s->st_blksize = 4096; return 0;
}
int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, (struct stat*)s); }
// whether a file of the simulated disk (or /proc) exists; 1: not a simulated path
static int look_at(const char* p, struct stat* s) {
    std::string pk; if (!sim_path(p, &pk)) return 1;
    Har h; sync_point(K_FILE); size_t n; if (!pk.empty()) { auto i = g_proc->find(pk); if (i == g_proc->end()) return ret_err(ENOENT); n = i->second.size(); }
    else { auto i = g_disk->find(p); if (i == g_disk->end()) return p[0] == '/' ? ret_err(ENOENT) : 1; n = i->second->data.size(); }
    if (s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = n; s->st_blksize = 4096; s->st_nlink = 1; } return 0;
}
int stat(const char* p, struct stat* s) noexcept { int r = look_at(p, s); if (r <= 0) return r; REAL(stat); return real_(p, s); }
int lstat(const char* p, struct stat* s) noexcept { int r = look_at(p, s); if (r <= 0) return r; REAL(lstat); return real_(p, s); }
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
int lstat64(const char* p, struct stat64* s) noexcept { return lstat(p, (struct stat*)s); }
int access(const char* p, int mode) noexcept { int r = look_at(p, nullptr); if (r <= 0) return r; return syscall(SYS_access, p, mode); }
int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return d == AT_FDCWD || p[0] == '/' ? do_open(p, fl, m) : syscall(SYS_openat, d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openat(d, p, fl, m); }
int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int unlink(const char* p) noexcept { if (!in_sim()) return syscall(SYS_unlink, p); Har h; sync_point(K_FILE); return g_disk->erase(p) ? 0 : ret_err(ENOENT); }
int remove(const char* p) noexcept { if (!in_sim()) { REAL(remove); return real_(p); } return unlink(p); }
int rename(const char* a, const char* b) noexcept {
    if (!in_sim()) return syscall(SYS_rename, a, b);
    Har h; sync_point(K_FILE); auto i = g_disk->find(a); if (i == g_disk->end()) return ret_err(ENOENT);
    auto d = i->second; g_disk->erase(i); (*g_disk)[b] = d; return 0;
}
int ftruncate(int fd, off_t n) noexcept {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_ftruncate, fd, n);
    Har h; ObjP o = get(fd); if (!o) return ret_err(EBADF); if (o->type != O_FILE || !o->wr) return ret_err(EINVAL);
    sync_point(K_FILE); o->fd->data.resize(n); return 0;
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
ssize_t pread(int fd, void* b, size_t n, off_t at) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_pread64, fd, b, n, at);
    Har h; ObjP o = get(fd); if (!o) return ret_err(EBADF); if (o->type != O_FILE) return ret_err(ESPIPE);
    auto was = o->off; o->off = at; ssize_t r = file_read(*o, (char*)b, n); o->off = was; return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t at) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_pwrite64, fd, b, n, at);
    Har h; ObjP o = get(fd); if (!o) return ret_err(EBADF); if (o->type != O_FILE) return ret_err(ESPIPE);
    auto was = o->off; o->off = at; ssize_t r = file_write(*o, (const char*)b, n); o->off = was; return r;
}
ssize_t pread64(int fd, void* b, size_t n, off64_t at) { return pread(fd, b, n, at); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t at) { return pwrite(fd, b, n, at); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);      // fewer bytes than asked for, as permitted
    return 0;
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_recvmsg, fd, m, fl);
    for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl);
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_fcntl, fd, cmd, arg);
    ObjP o = get(fd); if (!o) return ret_err(EBADF);
    if (cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { o->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int ioctl(int fd, unsigned long rq, ...) noexcept {
    va_list ap; va_start(ap, rq); void* arg = va_arg(ap, void*); va_end(ap);
    if (!is_sim_fd(fd) || !in_sim()) return syscall(SYS_ioctl, fd, rq, arg);
    ObjP o = get(fd); if (!o) return ret_err(EBADF);
    if (rq == FIONREAD) { *(int*)arg = o->type == O_FILE ? (int)(o->fd->data.size() - o->off) : o->end ? (int)o->end->in->q.size() : 0; return 0; }
    if (rq == FIONBIO) { o->nonblock = *(int*)arg != 0; return 0; }
    return ret_err(ENOTTY);
}
int poll(struct pollfd* p, nfds_t n, int to) {
    if (!in_sim()) { REAL(poll); return real_(p, n, to); }
    Har h; sync_point(K_SOCK);
    std::vector<ObjP> os; for (nfds_t i = 0; i < n; i++) os.push_back(get(p[i].fd));
    auto eval = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = p[i].fd < 0 ? 0 : os[i] ? poll_events(*os[i], p[i].events) : (short)POLLNVAL; c += p[i].revents != 0; } return c; };
    auto f = [&] { return eval() != 0; };
    if (!f() && to != 0) { uint64_t dl = to < 0 ? ~0ull : now() + (uint64_t)to * 1000000ull; while (!f()) if (!block_on(f, "poll", nullptr, dl)) break; }
    return eval();
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    if (!in_sim()) { REAL(select); return real_(n, r, w, e, tv); }
    std::vector<struct pollfd> v;
    { Har h; for (int i = 0; i < n; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) v.push_back({i, ev, 0}); } }
    int to = tv ? (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1;
    poll(v.data(), v.size(), to);
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    int c = 0;
    for (auto& p : v) { if (p.revents & POLLNVAL) return ret_err(EBADF); if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); c++; } if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } }
    return c;
}
pid_t getpid(void) noexcept { return in_sim() ? 4242 : (pid_t)syscall(SYS_getpid); }
long sysconf(int n) noexcept { if (in_sim()) { if (n == _SC_CLK_TCK) return 100; if (n == _SC_PAGESIZE) return 4096; if (n == _SC_NPROCESSORS_ONLN) return 4; } REAL(sysconf); return real_(n); }
int getpagesize(void) noexcept { return 4096; }

// ---- stdio
FILE* fopen(const char* p, const char* m) { std::string pk; if (!sim_path(p, &pk, strpbrk(m, "wa+"))) { REAL(fopen); return real_(p, m); } return sim_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { std::string pk; if (!sim_path(p, &pk, strpbrk(m, "wa+"))) { REAL(fopen64); return real_(p, m); } return sim_fopen(p, m); }
int fclose(FILE* f) {
    REAL(fclose);
    if (!in_sim()) return real_(f);
    auto it = g_files->find(f);
    if (it == g_files->end()) { heap_check(f, sizeof(FILE), "fclose of a closed FILE"); return real_(f); }
    Har h;
    sync_point(K_FILE);
    { FLock l(f, "fclose"); if (!l.r) fail("memory-error", "fclose of a closed FILE"); }
    it = g_files->find(f);
    it->second.owner = self_id() + 1; it->second.depth = 1000;
    int fd = it->second.fd;
    fflush(f);
    int r = real_(f);
    trace("fclose fd %d", fd);
    g_files->erase(f);
    g_fds[slot_of(fd)].reset();
    return r;
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
    REAL(fwrite);
    if (!in_sim()) return real_(b, s, n, f);
    if (in_sut()) sync_point(K_FILE);
    heap_check(b, s * n, "fwrite of data");
    FLock l(f, "fwrite to a closed FILE"); return real_(b, s, n, f);
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
    REAL(fread);
    if (!in_sim()) return real_(b, s, n, f);
    if (in_sut()) sync_point(K_FILE);
    heap_check(b, s * n, "fread into buffer");
    FLock l(f, "fread of a closed FILE"); return real_(b, s, n, f);
}
int fflush(FILE* f) { REAL(fflush); if (!in_sim() || !f) return real_(f); if (in_sut()) sync_point(K_FILE); FLock l(f, "fflush of a closed FILE"); return real_(f); }
static int term() { auto f = [] { return g_enter > 0; }; while (!f()) block_on(f, "getchar (waiting for Enter)", nullptr); g_enter--; return '\n'; }
int fgetc(FILE* f) { REAL(fgetc); if (!in_sim()) return real_(f); if (f == stdin) return term(); FLock l(f, "fgetc of a closed FILE"); return real_(f); }
int getc(FILE* f) { return fgetc(f); }
int _IO_getc(FILE* f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int fileno(FILE* f) noexcept { REAL(fileno); if (in_sim()) { auto it = g_files->find(f); if (it != g_files->end()) return it->second.fd; } return real_(f); }
}
