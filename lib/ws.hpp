// Socket plumbing and an RFC 6455 reference codec for the websocket harnesses.
// Sockets are socketpairs adopted by real boost::asio sockets, so everything
// runs single threaded and the only nondeterminism is what mc::choose picks.
#ifndef VERIF_WS_HPP
#define VERIF_WS_HPP

#include "mc.hpp"
#include <boost/asio.hpp>
#include <deque>
#include <errno.h>
#include <functional>
#include <optional>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>

namespace ws
{
  namespace asio = boost::asio;
  using tcp = asio::ip::tcp;
  using bytes = std::string;

  // ---- interposed system calls -------------------------------------------
  // send_hook(fd, wanted) returns how many bytes may be written now (>=1), or
  // a negative errno.  recv_hook likewise.
  inline std::function<long(int, std::size_t)> send_hook;
  inline std::function<long(int, std::size_t)> recv_hook;
  // errno of shutdown (a connection that was reset is not connected any more), or 0
  inline std::function<int(int)> shutdown_hook;

  inline std::size_t total(msghdr const* m)
  {
    std::size_t t = 0;
    for (std::size_t i = 0; i < m->msg_iovlen; i++) t += m->msg_iov[i].iov_len;
    return t;
  }
  // raw kernel calls, bypassing the hooks
  inline long raw_sendmsg(int fd, msghdr const* m, int f) { return ::syscall(SYS_sendmsg, fd, m, f); }
  inline long raw_recvmsg(int fd, msghdr* m, int f) { return ::syscall(SYS_recvmsg, fd, m, f); }

  inline std::vector<iovec> clip(msghdr const* m, std::size_t n)
  {
    std::vector<iovec> v;
    for (std::size_t i = 0; i < m->msg_iovlen && n; i++)
    {
      iovec x = m->msg_iov[i];
      if (x.iov_len > n) x.iov_len = n;
      n -= x.iov_len;
      v.push_back(x);
    }
    return v;
  }

  // ---- sockets -----------------------------------------------------------
  struct pair
  {
    int a = -1, b = -1;
    pair()
    {
      int fds[2];
      if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fds)) { std::perror("socketpair"); std::abort(); }
      a = fds[0]; b = fds[1];
      int big = 8 << 20;
      for (int fd : fds) { ::setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big); }
    }
  };

  inline void set_nonblock(int fd) { ::fcntl(fd, F_SETFL, ::fcntl(fd, F_GETFL) | O_NONBLOCK); }

  // raw peer: plain fd
  struct raw
  {
    int fd;
    explicit raw(int f) : fd(f) { set_nonblock(fd); }
    ~raw() { close(); }
    raw(raw const&) = delete;
    void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
    bool put(std::string_view s)
    {
      while (!s.empty())
      {
        iovec v{const_cast<char*>(s.data()), s.size()};
        msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1;
        long n = raw_sendmsg(fd, &m, MSG_NOSIGNAL);
        if (n <= 0) return false;
        s.remove_prefix(n);
      }
      return true;
    }
    // everything available now
    bytes get()
    {
      bytes r; static char buf[65536];
      for (;;)
      {
        iovec v{buf, sizeof buf};
        msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1;
        long n = raw_recvmsg(fd, &m, 0);
        if (n == 0) { eof = true; break; }
        if (n < 0) break;
        r.append(buf, n);
      }
      return r;
    }
    bool eof = false;
    void shutdown_write() { ::shutdown(fd, SHUT_WR); }
  };

  // ---- reference codec ---------------------------------------------------
  struct frame
  {
    bool fin = true;
    int opcode = 1;
    int rsv = 0;
    bool masked = false;
    unsigned char key[4] = {0, 0, 0, 0};
    bytes payload;
    int len_form = 0;                 // 0 minimal, 1 force 16 bit, 2 force 64 bit
  };

  inline bytes encode(frame const& f)
  {
    bytes o;
    o += char((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.opcode);
    uint64_t n = f.payload.size();
    int m = f.masked ? 0x80 : 0;
    int form = n < 126 ? 0 : n < 65536 ? 1 : 2;
    if (f.len_form > form) form = f.len_form;
    if (form == 0) o += char(m | n);
    else if (form == 1) { o += char(m | 126); o += char(n >> 8); o += char(n); }
    else { o += char(m | 127); for (int i = 7; i >= 0; i--) o += char(n >> (8 * i)); }
    if (f.masked) o.append(reinterpret_cast<char const*>(f.key), 4);
    for (std::size_t i = 0; i < f.payload.size(); i++)
      o += char(f.payload[i] ^ (f.masked ? f.key[i % 4] : 0));
    return o;
  }

  // decodes one frame; false when incomplete. minimal=false when the length
  // is not in its shortest form
  inline bool decode(std::string_view& s, frame& f, bool& minimal)
  {
    auto p = reinterpret_cast<unsigned char const*>(s.data());
    if (s.size() < 2) return false;
    f.fin = p[0] >> 7; f.rsv = (p[0] >> 4) & 7; f.opcode = p[0] & 15; f.masked = p[1] >> 7;
    uint64_t n = p[1] & 127; std::size_t off = 2; minimal = true;
    if (n == 126) { if (s.size() < 4) return false; n = p[2] * 256u + p[3]; off = 4; minimal = n >= 126; }
    else if (n == 127)
    {
      if (s.size() < 10) return false;
      n = 0; for (int i = 0; i < 8; i++) n = n << 8 | p[2 + i];
      off = 10; minimal = n >= 65536;
    }
    if (f.masked) { if (s.size() < off + 4) return false; std::memcpy(f.key, p + off, 4); off += 4; }
    if (s.size() < off || s.size() - off < n) return false;
    f.payload.assign(s.data() + off, n);
    if (f.masked) for (std::size_t i = 0; i < n; i++) f.payload[i] = char(f.payload[i] ^ f.key[i % 4]);
    s.remove_prefix(off + n);
    return true;
  }

  struct message { int opcode; bytes payload; };

  // Strict decode of everything written by one side. Returns an error text or "".
  inline bytes decode_stream(std::string_view s, std::vector<message>& out, std::size_t max_frame, bool* partial = nullptr)
  {
    bool open = false; message cur{};
    while (!s.empty())
    {
      frame f; bool minimal;
      auto before = s;
      if (!decode(s, f, minimal))
      {
        if (partial) { *partial = true; return ""; }
        return mc::str("truncated frame ", mc::show(before, 16));
      }
      if (f.rsv) return "reserved bits set";
      if (!minimal) return mc::str("length ", f.payload.size(), " not encoded in its shortest form");
      if (f.payload.size() > max_frame) return mc::str("frame payload of ", f.payload.size(), " exceeds limit ", max_frame);
      if (f.opcode >= 8)
      {
        if (f.opcode > 10) return mc::str("bad control opcode ", f.opcode);
        if (!f.fin) return "control frame without FIN";
        if (f.payload.size() > 125) return "control frame payload over 125";
        out.push_back({f.opcode, f.payload});
        continue;
      }
      if (f.opcode > 2) return mc::str("bad opcode ", f.opcode);
      if (open != (f.opcode == 0)) return open ? "new message started inside a fragmented message"
                                              : "continuation frame without a message to continue";
      if (!open) cur = {f.opcode, ""};
      cur.payload += f.payload;
      open = !f.fin;
      if (f.fin) out.push_back(cur);
    }
    if (open) { if (partial) *partial = true; else return "last frame of the message has no FIN bit"; }
    return "";
  }

  inline bytes pattern(std::size_t n, unsigned salt = 0)
  {
    bytes s(n, 0);
    for (std::size_t i = 0; i < n; i++) s[i] = char((i * 131 + (i >> 8) * 17 + salt * 29 + 7) & 255);
    return s;
  }
}

extern "C" ssize_t sendmsg(int fd, const msghdr* m, int flags)
{
  if (!ws::send_hook) return ws::raw_sendmsg(fd, m, flags);
  long n = ws::send_hook(fd, ws::total(m));
  if (n < 0) { errno = int(-n); return -1; }
  auto v = ws::clip(m, n);
  msghdr c = *m; c.msg_iov = v.data(); c.msg_iovlen = v.size();
  return ws::raw_sendmsg(fd, &c, flags);
}
extern "C" ssize_t recvmsg(int fd, msghdr* m, int flags)
{
  if (!ws::recv_hook) return ws::raw_recvmsg(fd, m, flags);
  long n = ws::recv_hook(fd, ws::total(m));
  if (n < 0) { errno = int(-n); return -1; }
  auto v = ws::clip(m, n);
  msghdr c = *m; c.msg_iov = v.data(); c.msg_iovlen = v.size();
  return ws::raw_recvmsg(fd, &c, flags);
}
extern "C" int shutdown(int fd, int how)
{
  int e = ws::shutdown_hook ? ws::shutdown_hook(fd) : 0;
  if (e) { errno = e; return -1; }
  return int(::syscall(SYS_shutdown, fd, how));
}
// asio uses these for single buffers
extern "C" ssize_t send(int fd, const void* b, size_t n, int flags)
{
  iovec v{const_cast<void*>(b), n}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1;
  return sendmsg(fd, &m, flags);
}
extern "C" ssize_t recv(int fd, void* b, size_t n, int flags)
{
  iovec v{b, n}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1;
  return recvmsg(fd, &m, flags);
}

#endif
