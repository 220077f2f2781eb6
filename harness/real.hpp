// Stages over real sockets: the library on Boost.Asio's reactor in a thread of its own, clients in other threads, loopback
// TCP. What the machine does with the timing is not controlled; a client that waits in vain gives up and is only counted.
#pragma once
#ifndef MON_REAL
#define MON_REAL
#endif
#include "app.hpp"
#include "hostile.hpp"

#include <arpa/inet.h>
#include <atomic>
#include <dirent.h>
#include <future>
#include <list>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <thread>

namespace real {
struct GaveUp {};

class Sock {
public:
    explicit Sock(int port, int receiveBuffer = 0) {
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (fd < 0) throw GaveUp{};
        timeval t{40, 0};
        setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
        setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t);
        if (receiveBuffer) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &receiveBuffer, sizeof receiveBuffer);
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(static_cast<std::uint16_t>(port));
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a)) {
            shut();
            throw GaveUp{};
        }
    }
    Sock(const Sock&) = delete;
    ~Sock() { shut(); }
    void shut() {
        if (fd >= 0) close(fd);
        fd = -1;
    }
    void reset() {
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        shut();
    }
    void endSending() { shutdown(fd, SHUT_WR); }
    /// false when the server is gone
    bool send(std::string_view b) {
        while (!b.empty()) {
            auto n = ::send(fd, b.data(), b.size(), MSG_NOSIGNAL);
            if (n < 0) {
                if (errno == EINTR) continue;
                if (errno == EAGAIN) throw GaveUp{};
                return false;
            }
            b.remove_prefix(static_cast<std::size_t>(n));
        }
        return true;
    }
    bool sendPieces(mon::Rng& rng, std::string_view b, unsigned style) {
        if (style == 0) return send(b);
        while (!b.empty()) {
            auto n = std::min(b.size(), 1 + rng.below(style == 1 ? 9 : std::max<std::size_t>(1, b.size() / 2)));
            if (!send(b.substr(0, n))) return false;
            b.remove_prefix(n);
            if (rng.chance(20)) usleep(static_cast<unsigned>(rng.below(400)));
        }
        return true;
    }
    /// false at the end of the stream; resets are told apart
    bool receive(std::string& to, std::size_t most = 65536) {
        char b[65536];
        for (;;) {
            auto n = recv(fd, b, std::min(most, sizeof b), 0);
            if (n > 0) {
                to.append(b, static_cast<std::size_t>(n));
                return true;
            }
            if (n < 0 && errno == EINTR) continue;
            if (n < 0 && errno == EAGAIN) throw GaveUp{};
            wasReset = n < 0;
            return false;
        }
    }
    std::string all() {
        std::string r;
        while (receive(r)) {}
        return r;
    }
    bool wasReset = false;

private:
    int fd;
};

/// a server running its loop in a thread; make constructs it there
template<typename S>
class Host {
public:
    template<typename Make>
    explicit Host(Make make) {
        std::promise<int> ready;
        auto f = ready.get_future();
        t = std::thread([this, make = std::move(make), ready = std::move(ready)]() mutable {
            std::unique_ptr<S> s;
            try {
                s = make();
                ready.set_value(realnet::lastPort());
            }
            catch (const std::exception& e) {
                ready.set_exception(std::make_exception_ptr(std::runtime_error(e.what())));
                return;
            }
            while (!ending) {
                try {
                    s->runOne();
                    ++handlers;
                }
                catch (const mon::Violation&) {
                }
                catch (...) {
                    if (++escaped < 4) mon::report("exception leaves the event loop: " + mon::currentExceptionType(), mon::currentExceptionText());
                }
            }
            s.reset();
        });
        try {
            port = f.get();
        }
        catch (const std::exception& e) {
            t.join();
            std::fprintf(stderr, "no server: %s\n", e.what());
            throw GaveUp{};
        }
    }
    ~Host() {
        ending = true;
        while (!over()) try {
                Sock wake(port);
                usleep(1000);
            }
            catch (const GaveUp&) {
                usleep(1000);
            }
        t.join();
        mon::count("reactor: handlers run", static_cast<long long>(handlers));
    }
    int port = 0;
    std::atomic<std::size_t> handlers{0}, escaped{0};

private:
    std::atomic<bool> ending{false};
    std::thread t;
    bool over() {
        try {
            Sock probe(port);
            return false;
        }
        catch (const GaveUp&) {
            return true;
        }
    }
};

/// f(client number, generator) in n threads
template<typename F>
void parallel(mon::Rng& rng, std::size_t n, F f) {
    std::vector<std::thread> t;
    std::vector<std::uint64_t> seeds(n);
    for (auto& s : seeds) s = rng.next();
    for (std::size_t i = 0; i < n; ++i)
        t.emplace_back([&, i] {
            mon::Rng mine(seeds[i]);
            try {
                f(i, mine);
            }
            catch (const mon::Violation&) {
            }
            catch (const GaveUp&) {
                mon::count("reactor: clients that gave up waiting");
            }
        });
    for (auto& x : t) x.join();
}
inline std::size_t descriptors() {
    std::size_t n = 0;
    if (auto d = opendir("/proc/self/fd")) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}
/// upgrades; true and the bytes already received after the answer
inline bool upgrade(mon::Rng& rng, Sock& s, std::string& rest) {
    auto ask = web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text();
    if (!s.sendPieces(rng, ask, static_cast<unsigned>(rng.below(3)))) return false;
    std::string b;
    while (b.find("\r\n\r\n") == b.npos)
        if (!s.receive(b)) return false;
    if (b.compare(0, 13, "HTTP/1.1 101 ") != 0) mon::fail("upgrade not accepted", mon::show(b, 300));
    rest = b.substr(b.find("\r\n\r\n") + 4);
    return true;
}
/// receives frames until done says so; false when the stream ends before
template<typename F>
bool frames(Sock& s, std::string& rest, F&& each) {
    wire::Frame f;
    for (;;) {
        while (wire::parseFrame(rest, f)) {
            auto size = f.size;
            if (!f.fin || f.rsv || f.masked || !f.minimal) mon::fail("frame is not a final unmasked minimal data frame", mon::show(rest, 60));
            bool more = each(f);
            rest.erase(0, size);
            f = {};
            if (!more) return true;
        }
        if (!s.receive(rest)) return false;
    }
}
} // namespace real
