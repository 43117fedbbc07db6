#include "vpnet.hpp"

#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "vp.hpp"

namespace vpnet {
int fam = 4;
std::function<int()> node;
std::function<int(const Sock&, const Addr&, const Bytes&)> on_send;
std::function<void(const Sock&)> on_open, on_close, on_block;
std::function<void(const Sock&, const Addr&, const Bytes&, size_t)> on_recv;

namespace {
struct Full : Sock { int family = 0; std::deque<std::pair<Addr, Bytes>> q; };
std::map<int, std::unique_ptr<Full>> socks;
int next_fd = FD0;
uint16_t next_port = 40000;
Full* find(int fd) { auto it = socks.find(fd); return it == socks.end() || !it->second->open ? nullptr : it->second.get(); }
}  // namespace

socklen_t addr_len(const Addr& a) { return a.sock.sa_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); }
uint16_t addr_port(const Addr& a) { return ntohs(a.sock.sa_family == AF_INET6 ? a.v6.sin6_port : a.v4.sin_port); }
bool is_group(const Addr& a) {
    if (a.sock.sa_family == AF_INET6) return a.v6.sin6_addr.s6_addr[0] == 0xFF;
    const uint32_t x = ntohl(a.v4.sin_addr.s_addr);
    return (x & 0xF0000000U) == 0xE0000000U || (x & 0xFF) == 0xFF;
}
Addr make_addr(int ip, uint16_t port) {
    Addr a;
    memset(&a, 0, sizeof(a));
    if (fam == 6) {
        a.v6.sin6_family = AF_INET6; a.v6.sin6_port = htons(port);
        a.v6.sin6_addr.s6_addr[0] = 0xFD; a.v6.sin6_addr.s6_addr[14] = uint8_t(ip >> 8); a.v6.sin6_addr.s6_addr[15] = uint8_t(ip);
    }
    else {
        a.v4.sin_family = AF_INET; a.v4.sin_port = htons(port); a.v4.sin_addr.s_addr = htonl(0x0A000000U | uint32_t(ip));
    }
    return a;
}
std::vector<Sock*> sockets() {
    std::vector<Sock*> r;
    for (auto& s : socks) if (s.second->open) r.push_back(s.second.get());
    return r;
}
int poll0(struct pollfd* fds, nfds_t n) {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
        pollfd& p = fds[i];
        if (p.fd < FD0) {
            timespec ts{0, 0};
            if (syscall(SYS_ppoll, &p, 1UL, &ts, nullptr, 8) < 1) p.revents = 0;
        }
        else {
            Full* s = find(p.fd);
            p.revents = s == nullptr ? POLLNVAL : short((s->q.empty() ? POLLOUT : POLLIN | POLLOUT) & p.events);
        }
        c += p.revents != 0;
    }
    return c;
}
void install() { vp::poll_hook = poll0; }
bool readable(int fd) { Full* s = find(fd); return s != nullptr && !s->q.empty(); }
void deliver(int fd, const Addr& from, const Bytes& b) {
    Full* s = find(fd);
    if (s != nullptr) { s->q.emplace_back(from, b); vp::fd_event(); }
}
static int do_send(int fd, const sockaddr* to, socklen_t len, Bytes b) {
    Full* s = find(fd);
    if (s == nullptr) { errno = EBADF; return -1; }
    Addr a;
    memset(&a, 0, sizeof(a));
    memcpy(&a, to, len < sizeof(a) ? len : sizeof(a));
    if (a.sock.sa_family != s->family) { errno = EAFNOSUPPORT; return -1; }
    const int e = on_send(*s, a, b);
    if (e != 0) { errno = e; return -1; }
    return int(b.size());
}
}  // namespace vpnet

using namespace vpnet;
extern "C" {
int socket(int domain, int type, int protocol) {
    if (!vp::active() || (type & 0xF) != SOCK_DGRAM || (domain != AF_INET && domain != AF_INET6)) return (int) syscall(SYS_socket, domain, type, protocol);
    auto s = std::make_unique<Full>();
    s->fd = next_fd++; s->node = node(); s->open = true; s->family = domain; s->data = false;
    memset(&s->addr, 0, sizeof(s->addr));
    const int fd = s->fd;
    socks[fd] = std::move(s);
    return fd;
}
int bind(int fd, const sockaddr* addr, socklen_t len) {
    Full* s = find(fd);
    if (s == nullptr) return (int) syscall(SYS_bind, fd, addr, len);
    Addr a;
    memset(&a, 0, sizeof(a));
    memcpy(&a, addr, len);
    s->data = addr_port(a) == 0;
    s->addr = make_addr(s->node, s->data ? next_port++ : addr_port(a));
    on_open(*s);
    return 0;
}
int setsockopt(int fd, int level, int name, const void* val, socklen_t len) {
    if (fd >= FD0) return find(fd) ? 0 : (errno = EBADF, -1);
    return (int) syscall(SYS_setsockopt, fd, level, name, val, len);
}
int getsockopt(int fd, int level, int name, void* val, socklen_t* len) {
    if (fd < FD0) return (int) syscall(SYS_getsockopt, fd, level, name, val, len);
    if (find(fd) == nullptr) { errno = EBADF; return -1; }
    *(int*) val = level == SOL_SOCKET && name == SO_TYPE ? SOCK_DGRAM : 0;
    return 0;
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const sockaddr* to, socklen_t len) {
    if (fd < FD0) return (ssize_t) syscall(SYS_sendto, fd, b, n, flags, to, len);
    return do_send(fd, to, len, Bytes((const uint8_t*) b, (const uint8_t*) b + n));
}
ssize_t sendmsg(int fd, const msghdr* m, int flags) {
    if (fd < FD0) return (ssize_t) syscall(SYS_sendmsg, fd, m, flags);
    Bytes b;
    for (size_t i = 0; i < m->msg_iovlen; ++i) b.insert(b.end(), (const uint8_t*) m->msg_iov[i].iov_base, (const uint8_t*) m->msg_iov[i].iov_base + m->msg_iov[i].iov_len);
    return do_send(fd, (const sockaddr*) m->msg_name, m->msg_namelen, b);
}
static ssize_t do_recv(int fd, int flags, Addr& from, Bytes& b, size_t room) {
    Full* s = find(fd);
    if (s == nullptr) { errno = EBADF; return -1; }
    if (s->q.empty()) {
        if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
        on_block(*s);
        s = find(fd);
        if (s == nullptr || s->q.empty()) { errno = EINTR; return -1; }
    }
    from = s->q.front().first;
    b = s->q.front().second;
    if (flags & MSG_PEEK) return ssize_t(b.size());
    s->q.pop_front();
    on_recv(*s, from, b, room);
    return ssize_t(b.size());
}
ssize_t recvmsg(int fd, msghdr* m, int flags) {
    if (fd < FD0) return (ssize_t) syscall(SYS_recvmsg, fd, m, flags);
    Addr from;
    Bytes b;
    size_t room = 0;
    for (size_t i = 0; i < m->msg_iovlen; ++i) room += m->msg_iov[i].iov_len;
    const ssize_t r = do_recv(fd, flags, from, b, room);
    if (r < 0) return r;
    size_t off = 0;
    for (size_t i = 0; i < m->msg_iovlen && off < b.size(); ++i) {
        const size_t k = std::min(m->msg_iov[i].iov_len, b.size() - off);
        memcpy(m->msg_iov[i].iov_base, b.data() + off, k);
        off += k;
    }
    if (m->msg_name) memcpy(m->msg_name, &from, std::min<size_t>(m->msg_namelen, addr_len(from)));
    m->msg_namelen = addr_len(from);
    m->msg_controllen = 0;
    m->msg_flags = off < b.size() ? MSG_TRUNC : 0;
    return ssize_t((flags & MSG_TRUNC) ? b.size() : off);
}
ssize_t recvfrom(int fd, void* p, size_t n, int flags, sockaddr* from, socklen_t* len) {
    if (fd < FD0) return (ssize_t) syscall(SYS_recvfrom, fd, p, n, flags, from, len);
    iovec v{p, n};
    msghdr m{};
    m.msg_name = from; m.msg_namelen = len ? *len : 0; m.msg_iov = &v; m.msg_iovlen = 1;
    const ssize_t r = recvmsg(fd, &m, flags);
    if (len) *len = m.msg_namelen;
    return r;
}
ssize_t recv(int fd, void* p, size_t n, int flags) { return recvfrom(fd, p, n, flags, nullptr, nullptr); }
int getsockname(int fd, sockaddr* a, socklen_t* len) {
    if (fd < FD0) return (int) syscall(SYS_getsockname, fd, a, len);
    Full* s = find(fd);
    if (s == nullptr) { errno = EBADF; return -1; }
    memcpy(a, &s->addr, std::min<size_t>(*len, addr_len(s->addr)));
    *len = addr_len(s->addr);
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    if (fd < FD0) return (int) syscall(SYS_ioctl, fd, req, p);
    Full* s = find(fd);
    if (s == nullptr) { errno = EBADF; return -1; }
    if (req == FIONREAD) *(int*) p = s->q.empty() ? 0 : int(s->q.front().second.size());   // as Linux: the size of the next datagram
    return 0;
}
int close(int fd) {
    if (fd < FD0) { const int r = (int) syscall(SYS_close, fd); if (vp::active()) vp::fd_event(); return r; }
    Full* s = find(fd);
    if (s == nullptr) { errno = EBADF; return -1; }
    on_close(*s);
    s->open = false;
    vp::fd_event();
    return 0;
}
}
