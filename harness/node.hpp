// A node child process spoken to with one line per request and one line per answer.
#pragma once
#include "monitor.hpp"
#include <sys/wait.h>

namespace mon {
class Node {
public:
    explicit Node(const std::string& script) {
        int in[2], out[2];
        if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) throw HarnessError("pipe");
        pid = fork();
        if (pid < 0) throw HarnessError("fork");
        if (pid == 0) {
            itimerval off{};
            setitimer(ITIMER_PROF, &off, nullptr);
            dup2(in[0], 0);
            dup2(out[1], 1);
            auto path = std::string(MON_ROOT) + "/harness/" + script;
            unsetenv("NODE_OPTIONS");
            execlp("node", "node", "--max-old-space-size=1500", path.c_str(), static_cast<char*>(nullptr));
            _exit(127);
        }
        close(in[0]);
        close(out[1]);
        w = fdopen(in[1], "w");
        r = fdopen(out[0], "r");
    }
    Node(const Node&) = delete;
    ~Node() {
        std::fclose(w);
        std::fclose(r);
        waitpid(pid, nullptr, 0);
    }
    std::string ask(const std::string& line) {
        std::fputs(line.c_str(), w);
        std::fputc('\n', w);
        std::fflush(w);
        return readLine();
    }
    std::string readLine() {
        std::string a;
        for (int c; (c = std::fgetc(r)) != '\n';) {
            if (c == EOF) throw HarnessError("node ended");
            a += static_cast<char>(c);
        }
        return a;
    }

private:
    pid_t pid;
    std::FILE *w, *r;
};
inline std::string hex(std::string_view t) {
    static const char* d = "0123456789abcdef";
    std::string r;
    r.reserve(t.size() * 2);
    for (unsigned char c : t) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
inline std::string unhex(std::string_view t) {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < t.size(); i += 2) r += static_cast<char>(v(t[i]) * 16 + v(t[i + 1]));
    return r;
}
} // namespace mon
