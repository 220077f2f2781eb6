// Independent model of the messages exchanged by WebFront and its JavaScript client. Nothing here uses the library.
#pragma once
#include "monitor.hpp"
#include <bit>
#include <cmath>

namespace wire {

struct Malformed : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Value {
    enum Kind : std::uint8_t { undefined = 0, yes = 1, no = 2, number = 3, smallString = 4, string = 5, exception = 6, tuple = 18 } kind = undefined;
    double d = 0;
    std::string s;
    std::vector<Value> items;

    static Value boolean(bool b) {
        Value v;
        v.kind = b ? yes : no;
        return v;
    }
    static Value num(double d) {
        Value v;
        v.kind = number;
        v.d = d;
        return v;
    }
    static Value str(std::string s) {
        Value v;
        v.kind = s.size() < 256 ? smallString : string;
        v.s = std::move(s);
        return v;
    }
    static Value longStr(std::string s) {
        Value v;
        v.kind = string;
        v.s = std::move(s);
        return v;
    }
    static Value list(std::vector<Value> i) {
        Value v;
        v.kind = tuple;
        v.items = std::move(i);
        return v;
    }
    bool operator==(const Value& o) const {
        auto text = [](Kind k) { return k == smallString || k == string; };
        if (kind != o.kind && !(text(kind) && text(o.kind))) return false;
        if (kind == number) return (std::isnan(d) && std::isnan(o.d)) || std::bit_cast<std::uint64_t>(d) == std::bit_cast<std::uint64_t>(o.d);
        return s == o.s && items == o.items;
    }
    std::string show() const {
        switch (kind) {
        case undefined: return "undefined";
        case yes: return "true";
        case no: return "false";
        case number: {
            char b[40];
            std::snprintf(b, sizeof b, "%.17g", d);
            return b;
        }
        case exception: return "exception '" + mon::show(s, 40) + "'";
        case tuple: {
            std::string r = "[";
            for (auto& i : items) r += (r.size() > 1 ? "," : "") + i.show();
            return r + "]";
        }
        default: return "'" + mon::show(s, 40) + "'(" + std::to_string(s.size()) + ")";
        }
    }
};
inline std::string show(const std::vector<Value>& v) { return Value::list(v).show(); }

template<typename T>
void raw(std::string& out, T v) {
    out.append(reinterpret_cast<const char*>(&v), sizeof v);
}
inline void encode(const Value& v, std::string& out) {
    out.push_back(static_cast<char>(v.kind));
    switch (v.kind) {
    case Value::number: raw(out, v.d); break;
    case Value::smallString: out.push_back(static_cast<char>(v.s.size())); out += v.s; break;
    case Value::string:
    case Value::exception: raw(out, static_cast<std::uint16_t>(v.s.size())); out += v.s; break;
    case Value::tuple:
        out.push_back(static_cast<char>(v.items.size()));
        for (auto& i : v.items) encode(i, out);
        break;
    default: break;
    }
}
inline Value decode(std::string_view& in) {
    auto take = [&](std::size_t n) {
        if (in.size() < n) throw Malformed("truncated parameter");
        auto r = in.substr(0, n);
        in.remove_prefix(n);
        return r;
    };
    auto word = [&] {
        std::uint16_t n;
        std::memcpy(&n, take(2).data(), 2);
        return n;
    };
    Value v;
    v.kind = static_cast<Value::Kind>(static_cast<std::uint8_t>(take(1)[0]));
    switch (v.kind) {
    case Value::undefined:
    case Value::yes:
    case Value::no: break;
    case Value::number: std::memcpy(&v.d, take(8).data(), 8); break;
    case Value::smallString: v.s = take(static_cast<std::uint8_t>(take(1)[0])); break;
    case Value::string:
    case Value::exception: v.s = take(word()); break;
    case Value::tuple:
        for (std::size_t n = static_cast<std::uint8_t>(take(1)[0]); n-- > 0;) v.items.push_back(decode(in));
        break;
    default: throw Malformed("unknown parameter type " + std::to_string(v.kind));
    }
    return v;
}

enum Command : std::uint8_t { handshake, ack, textCommand, callFunction, functionReturn };
struct Message {
    std::uint8_t command = 0, detail = 0; // detail: endianness, text opcode
    std::size_t count = 0;                // announced number of parameters
    std::string text;
    std::vector<Value> values;
};
/// parses a message sent by the C++ side, strictly
inline Message parse(std::string_view b) {
    if (b.empty()) throw Malformed("empty message");
    Message m;
    m.command = static_cast<std::uint8_t>(b[0]);
    auto need = [&](std::size_t n) {
        if (b.size() < n) throw Malformed("message of command " + std::to_string(m.command) + " truncated at " + std::to_string(b.size()) + " bytes");
    };
    switch (m.command) {
    case handshake:
    case ack:
        need(2);
        if (b.size() != 2) throw Malformed("acknowledgement of " + std::to_string(b.size()) + " bytes");
        m.detail = static_cast<std::uint8_t>(b[1]);
        break;
    case textCommand: {
        need(4);
        m.detail = static_cast<std::uint8_t>(b[1]);
        std::size_t n = static_cast<std::uint8_t>(b[2]) * 256u + static_cast<std::uint8_t>(b[3]);
        if (b.size() != 4 + n) throw Malformed("text command announces " + std::to_string(n) + " bytes and carries " + std::to_string(b.size() - 4));
        m.text = b.substr(4);
        break;
    }
    case callFunction:
    case functionReturn: {
        need(8);
        m.count = static_cast<std::uint8_t>(b[1]);
        std::uint32_t n;
        std::memcpy(&n, b.data() + 4, 4);
        if (b.size() != 8 + std::size_t{n}) throw Malformed("call announces " + std::to_string(n) + " bytes and carries " + std::to_string(b.size() - 8));
        auto rest = b.substr(8);
        while (!rest.empty()) m.values.push_back(decode(rest));
        break;
    }
    default: throw Malformed("unknown command " + std::to_string(m.command));
    }
    return m;
}
/// a call as the JavaScript client sends it
inline std::string call(const std::string& name, const std::vector<Value>& args) {
    std::string payload;
    encode(Value::str(name), payload);
    for (auto& a : args) encode(a, payload);
    std::string out{static_cast<char>(callFunction), static_cast<char>(args.size() + 1), '\0', '\0'};
    raw(out, static_cast<std::uint32_t>(payload.size()));
    return out + payload;
}
inline std::string handshakeMessage() { return std::string{'\0', '\0'}; }

// ---- WebSocket frames -----------------------------------------------------------------------------------------------
enum Opcode : std::uint8_t { continuation = 0, text = 1, binary = 2, close = 8, ping = 9, pong = 10 };
struct Frame {
    std::uint8_t opcode = 0;
    bool fin = true, masked = false, minimal = true;
    std::uint8_t rsv = 0;
    std::string payload;
    std::size_t size = 0; // of the whole frame
};
/// a frame as a client sends it; lengthClass 0 = minimal, otherwise 126 or 127 even where a shorter form exists
inline std::string clientFrame(std::uint8_t opcode, std::string_view payload, std::uint32_t mask, int lengthClass = 0) {
    std::string f;
    f.push_back(static_cast<char>(0x80 | opcode));
    if (lengthClass == 0) lengthClass = payload.size() < 126 ? 1 : payload.size() < 65536 ? 126 : 127;
    if (lengthClass == 1) f.push_back(static_cast<char>(0x80 | payload.size()));
    else {
        f.push_back(static_cast<char>(0x80 | lengthClass));
        for (int i = lengthClass == 126 ? 1 : 7; i >= 0; --i) f.push_back(static_cast<char>(std::uint64_t{payload.size()} >> (8 * i)));
    }
    char key[4];
    std::memcpy(key, &mask, 4);
    f.append(key, 4);
    for (std::size_t i = 0; i < payload.size(); ++i) f.push_back(static_cast<char>(payload[i] ^ key[i % 4]));
    return f;
}
/// a frame of a message of several
inline std::string fragment(std::string frame, bool last) {
    if (!last) frame[0] = static_cast<char>(frame[0] & 0x7f);
    return frame;
}
/// parses one frame sent by the server; false when the bytes end inside it
inline bool parseFrame(std::string_view b, Frame& f) {
    if (b.size() < 2) return false;
    auto u = [&](std::size_t i) { return static_cast<std::uint64_t>(static_cast<std::uint8_t>(b[i])); };
    f.fin = u(0) & 0x80;
    f.rsv = (u(0) >> 4) & 7;
    f.opcode = u(0) & 15;
    f.masked = u(1) & 0x80;
    std::uint64_t n = u(1) & 127;
    std::size_t at = 2;
    f.minimal = true;
    if (n == 126 || n == 127) {
        std::size_t k = n == 126 ? 2 : 8;
        if (b.size() < 2 + k) return false;
        auto form = n;
        n = 0;
        for (std::size_t i = 0; i < k; ++i) n = n << 8 | u(2 + i);
        at = 2 + k;
        f.minimal = form == 126 ? n >= 126 : n >= 65536;
    }
    std::string_view key;
    if (f.masked) {
        if (b.size() < at + 4) return false;
        key = b.substr(at, 4);
        at += 4;
    }
    if (n > b.size() - at) return false;
    f.payload = b.substr(at, n);
    if (f.masked)
        for (std::size_t i = 0; i < f.payload.size(); ++i) f.payload[i] = static_cast<char>(f.payload[i] ^ key[i % 4]);
    f.size = at + n;
    return true;
}
/// all complete frames of a server's byte stream; checks that each is a final, unmasked, minimally encoded frame
inline std::vector<Frame> serverFrames(std::string_view b, std::size_t* rest = nullptr) {
    std::vector<Frame> r;
    Frame f;
    while (parseFrame(b, f)) {
        mon::check(f.fin && f.rsv == 0 && !f.masked && f.minimal && (f.opcode == text || f.opcode == binary), "frame is not a final unmasked minimal data frame", [&] {
            return "frame " + std::to_string(r.size()) + ": fin=" + std::to_string(f.fin) + " rsv=" + std::to_string(f.rsv) + " opcode=" + std::to_string(f.opcode) +
                   " masked=" + std::to_string(f.masked) + " minimal=" + std::to_string(f.minimal) + " payload=" + std::to_string(f.payload.size()) + " bytes at '" + mon::show(b, 40) + "'";
        });
        b.remove_prefix(f.size);
        r.push_back(std::move(f));
        f = {};
    }
    if (rest) *rest = b.size();
    else mon::check(b.empty(), "bytes after the last frame", [&] { return std::to_string(b.size()) + " bytes: '" + mon::show(b, 60) + "' after " + std::to_string(r.size()) + " frames"; });
    return r;
}
} // namespace wire
