// Compiled by l02.cpp with -DKIND=n: an argument that no message can represent. Exits 0 if it is refused with an exception or the
// message it makes carries as many values as it announces.
#include <networking/BasicNetworking.hpp>
#include <http/WebSocket.hpp>
#include <weblink/Messages.hpp>

#include <bitset>
#include <map>
#include <memory>
#include <variant>
#include <vector>

using Net = webfront::networking::BasicNetworking<>;
namespace msg = webfront::msg;
enum Plain { a, b };
enum class Scoped { a, b };
struct Own {
    int value = 1;
};
template<std::size_t... I>
auto wide(std::index_sequence<I...>) { return std::tuple(static_cast<char>(I)...); }

int main() {
    auto send = [](auto&&... args) -> int {
        std::cout.setstate(std::ios::failbit); // the library's own output
        try {
            msg::FunctionCall command;
            webfront::websocket::Frame<Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
            command.encodeParameter("name", frame);
            (command.encodeParameter(args, frame), ...);
            command.setParametersCount(1 + sizeof...(args));
            std::vector<std::byte> data;
            auto buffers = frame.toBuffers();
            for (std::size_t i = 2; i < buffers.size(); ++i) {
                auto p = static_cast<const std::byte*>(buffers[i].data());
                data.insert(data.end(), p, p + buffers[i].size());
            }
            // values: "name", then numbers, booleans, texts and tuples
            std::size_t at = 0, values = 0;
            std::function<bool()> value = [&]() -> bool {
                if (at >= data.size()) return false;
                auto byte = [&](std::size_t i) { return i < data.size() ? std::to_integer<std::size_t>(data[i]) : 0; };
                switch (static_cast<msg::CodedType>(data[at])) {
                case msg::CodedType::undefined:
                case msg::CodedType::booleanTrue:
                case msg::CodedType::booleanFalse: ++at; return true;
                case msg::CodedType::number: at += 9; return at <= data.size();
                case msg::CodedType::smallString: at += 2 + byte(at + 1); return at <= data.size();
                case msg::CodedType::string:
                case msg::CodedType::exception: at += 3 + byte(at + 1) + 256 * byte(at + 2); return at <= data.size();
                case msg::CodedType::tuple: {
                    auto n = byte(at + 1);
                    at += 2;
                    while (n-- > 0)
                        if (!value()) return false;
                    return at <= data.size();
                }
                default: return false;
                }
            };
            while (at < data.size()) {
                if (!value()) return 1;
                ++values;
            }
            return values == 1 + sizeof...(args) && command.getPayloadSize() == data.size() ? 0 : 1;
        }
        catch (const std::exception&) {
            return 0;
        }
    };
#if KIND == 0
    return send(1, std::string("supported"), std::tuple<bool, double>{true, 2.5}, "text");
#elif KIND == 1
    return send(Scoped::b);
#elif KIND == 2
    return send(1, b, 2);
#elif KIND == 3
    return send(std::vector<int>{1, 2, 3}, "after");
#elif KIND == 4
    return send(std::pair<int, int>{1, 2});
#elif KIND == 5
    return send(nullptr);
#elif KIND == 6
    std::vector<bool> bits{true, false};
    return send(bits[0]);
#elif KIND == 7
    return send(Own{});
#elif KIND == 8
    return send(std::tuple<int, std::vector<std::string>>{1, {"a"}});
#elif KIND == 9
    return send(std::optional<int>{1});
#elif KIND == 10
    return send(wide(std::make_index_sequence<256>{}));
#elif KIND == 11
    return send(std::map<std::string, int>{{"a", 1}});
#elif KIND == 12
    return send(std::make_unique<int>(1));
#elif KIND == 13
    return send(std::variant<int, std::string>{1});
#endif
}
