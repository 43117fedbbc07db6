// A simulated datagram network: replaces the UDP socket calls of the code under test.
#ifndef VPNET_HPP
#define VPNET_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <netinet/in.h>
#include <sys/socket.h>

namespace vpnet {
union Addr { sockaddr sock; sockaddr_in v4; sockaddr_in6 v6; sockaddr_storage ss; };
socklen_t addr_len(const Addr& a);
uint16_t addr_port(const Addr& a);
using Bytes = std::vector<uint8_t>;
struct Sock { int fd, node; bool data; Addr addr; bool open; };
// Fds of the simulated sockets start here
constexpr int FD0 = 5000;
extern int fam;                       // 4 or 6
extern std::function<int()> node;     // which node is executing
// called for everything that is sent; returns an errno to make the call fail. The receivers are up to it (see deliver).
extern std::function<int(const Sock& from, const Addr& to, const Bytes&)> on_send;
extern std::function<void(const Sock&)> on_open;      // after a successful bind
extern std::function<void(const Sock&)> on_close;
extern std::function<void(const Sock& at, const Addr& from, const Bytes&, size_t room)> on_recv;  // a datagram is read
extern std::function<void(const Sock&)> on_block;     // a read that can not be satisfied; returns when it can
std::vector<Sock*> sockets();
bool is_group(const Addr& a);
void deliver(int fd, const Addr& from, const Bytes& b);
bool readable(int fd);
void install();                       // poll() knows the simulated sockets
Addr make_addr(int node_ip, uint16_t port);
}  // namespace vpnet
#endif
