From 07d5c747acdb8c0628e1b9bd8023d7c5ceff350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 01/65] fix: percent-encode bytes above 0x7f without indexing
 out of the digits table

---
 include/http/Encodings.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..0507965 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -22,12 +22,13 @@ namespace uri {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
     for (auto c : uri) {
-        if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
+        const auto byte = static_cast<unsigned char>(c);
+        if (std::isalnum(byte) || c == '-' || c == '_' || c == '.' || c == '~')
             encoded += c;
         else {
             encoded += "%";
-            encoded += digits[static_cast<size_t>(c >> 4)];
-            encoded += digits[static_cast<size_t>(c % 16)];
+            encoded += digits[byte >> 4];
+            encoded += digits[byte % 16];
         }
     }
     return encoded;
@@ -39,7 +40,8 @@ namespace uri {
     for (std::size_t index = 0; index < uri.size(); ++index) {
         switch (uri[index]) {
         case '%':
-            if (index + 3 <= uri.size() && std::isxdigit(uri[index + 1]) && std::isxdigit(uri[index + 2])) {
+            if (index + 3 <= uri.size() && std::isxdigit(static_cast<unsigned char>(uri[index + 1])) &&
+                std::isxdigit(static_cast<unsigned char>(uri[index + 2]))) {
                 auto hexToValue = [](char c) -> uint8_t {
                     if (c >= '0' && c <= '9') return uint8_t(c - '0');
                     if (c >= 'A' && c <= 'F') return uint8_t(c - 'A' + 10);
-- 
2.43.0


From 02947b51180deee0d2fb69556e61920c75b647d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 02/65] fix: base64 encode inputs shorter than 3 bytes and do
 not leave a trailing NUL

---
 include/http/Encodings.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 0507965..4ba6909 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -113,10 +113,10 @@ namespace detail {
                                     'W', 'X', 'Y', 'Z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
                                     's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'};
 
-    std::string output((4 * (size + 2) / 3), '\0');
+    std::string output(4 * ((size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
@@ -134,7 +134,6 @@ namespace detail {
         }
         *coded++ = '=';
     }
-    if (coded != output.end()) output.erase(coded);
 
     return output;
 }
-- 
2.43.0


From f21517c15f24bb0215eba455e3cee8fe51994653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 03/65] fix: split URIs after RFC 3986, without state shared
 between parses

Components were located with static marks kept between calls: URIs without path,
query or scheme gave wrong fields or threw, the next URI parsed after a throw was
split with the wrong step, and copies kept views on the string of the original.
---
 include/http/Encodings.hpp | 86 +++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 4ba6909..f798c5b 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -68,38 +68,66 @@ namespace uri {
 //  └─┬─┘   └─────────────┬────────────┘└───────┬───────┘ └────────────┬────────────┘ └┬┘
 //  scheme          authority                  path                  query           fragment
 struct URI {
-    URI(std::string uri) : string(uri), scheme(next(string)), authority(next(string)), path(next(string)), query(next(string)),
-        fragment(next(string)), userinfo(next(authority)), host(next(authority)), port(next(authority)) {}
-        
+    URI(std::string uri) : string(std::move(uri)), scheme(findScheme(string)), authority(findAuthority(string)), path(findPath(string)),
+        query(findQuery(string)), fragment(findFragment(string)), userinfo(findUserinfo(authority)), host(findHost(authority)), port(findPort(authority)) {}
+    URI(const URI& other) : URI(other.string) {} // views have to refer to our own string
+
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
 
-private:    
-    static std::string_view next(std::string_view uri) {
-        const size_t schem{0}, autho{1}, path_{2}, quer_{3}, fragm{4}, usrnf{5}, host_{6}, port_{7}, npos = std::string_view::npos; 
-        static size_t step{port_}, mark, mark2;
-        step = (step == port_) ? schem : step + 1;
-        switch (step) {
-            case schem: mark = uri.find("://");
-                if (mark == npos) { mark = uri.size() - 3; return {}; } else return uri.substr(0, mark);
-            case autho: mark2 = uri.find("/", mark + 3);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return {}; } else return uri.substr(mark + 3, mark2 - mark - 3);
-            case path_: mark = uri.find("?", mark2 + 1);
-                if (mark == npos) {
-                    mark = uri.find("#");
-                    if (mark == npos) { mark = uri.size() - 1; return uri.substr(mark2); }
-                }
-                return uri.substr(mark2, mark - mark2);
-            case quer_: mark2 = uri.find("#", mark + 1);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return uri.substr(mark + 1); } else return uri.substr(mark + 1, mark2 - mark - 1);
-            case fragm: return uri.substr(mark2 + 1);
-            case usrnf: mark = uri.find("@");
-                if (mark == npos) return {}; else return uri.substr(0, mark);
-            case host_: mark2 = uri.find(":", mark + 1);
-                if (mark2 == npos) return uri.substr(mark + 1); else return uri.substr(mark + 1, mark2 - mark - 1);
-            case port_: if (mark2 != npos) return uri.substr(mark2 + 1);
-        }
-        return {};           
+private:
+    static constexpr std::string_view schemeSeparator = "://";
+
+    /// @return position of "://", or npos if there is none before the first delimiter
+    static size_t schemeEnd(std::string_view uri) {
+        auto end = uri.find_first_of(":/?#");
+        return end != std::string_view::npos && uri.substr(end).starts_with(schemeSeparator) ? end : std::string_view::npos;
+    }
+    static std::string_view findScheme(std::string_view uri) {
+        auto end = schemeEnd(uri);
+        return end == std::string_view::npos ? std::string_view{} : uri.substr(0, end);
+    }
+    static std::string_view findAuthority(std::string_view uri) {
+        auto end = schemeEnd(uri);
+        if (end == std::string_view::npos) return {};
+        auto text = uri.substr(end + schemeSeparator.size());
+        return text.substr(0, text.find_first_of("/?#"));
+    }
+    static std::string_view findPath(std::string_view uri) {
+        auto end = schemeEnd(uri);
+        auto text = end == std::string_view::npos ? uri : uri.substr(end + schemeSeparator.size() + findAuthority(uri).size());
+        return text.substr(0, text.find_first_of("?#"));
+    }
+    static std::string_view findQuery(std::string_view uri) {
+        auto text = uri.substr(0, uri.find('#'));
+        auto mark = text.find('?');
+        return mark == std::string_view::npos ? std::string_view{} : text.substr(mark + 1);
+    }
+    static std::string_view findFragment(std::string_view uri) {
+        auto mark = uri.find('#');
+        return mark == std::string_view::npos ? std::string_view{} : uri.substr(mark + 1);
+    }
+    static size_t userinfoEnd(std::string_view authority) { return authority.rfind('@'); }
+    static std::string_view findUserinfo(std::string_view authority) {
+        auto mark = userinfoEnd(authority);
+        return mark == std::string_view::npos ? std::string_view{} : authority.substr(0, mark);
+    }
+    static std::string_view hostAndPort(std::string_view authority) {
+        auto mark = userinfoEnd(authority);
+        return mark == std::string_view::npos ? authority : authority.substr(mark + 1);
+    }
+    static size_t portMark(std::string_view text) { // an IP literal host contains colons between its brackets
+        auto bracket = text.starts_with('[') ? text.find(']') : std::string_view::npos;
+        return text.find(':', bracket == std::string_view::npos ? 0 : bracket);
+    }
+    static std::string_view findHost(std::string_view authority) {
+        auto text = hostAndPort(authority);
+        return text.substr(0, portMark(text));
+    }
+    static std::string_view findPort(std::string_view authority) {
+        auto text = hostAndPort(authority);
+        auto mark = portMark(text);
+        return mark == std::string_view::npos ? std::string_view{} : text.substr(mark + 1);
     }
 };
 } // namespace uri
-- 
2.43.0


From 5d89d393db443df88e38accf71a773ff7a07d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 04/65] fix: read virtual files correctly when a read starts
 inside a data word

---
 include/system/FileSystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..885b981 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -69,11 +69,11 @@ private:
 
     size_t readData(std::span<char> buffer) {
         constexpr auto bytesPerInt = sizeof(decltype(data)::value_type);
-        UIntByte chunk;
+        UIntByte chunk{};
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-            if (readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
+            if (index == 0 || readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
 
             buffer[index] = static_cast<char>(chunk.byte[readIndex % bytesPerInt]);
             readIndex++;
-- 
2.43.0


From 348b9ed9877840763429c0bb1c8c5a4aa524674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 05/65] fix: csv files have the text/csv type

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From eacc6d5a847972d98ad7fac4df7b9b8deaeabb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 06/65] fix: hex dumps neither depend on nor change the
 formatting state of the stream

---
 include/tooling/HexDump.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b673417..c8ab717 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -36,8 +36,9 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     size_t address = 0;
     const auto buffer =
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
-    auto iosFlags{os.flags()};
-    os << hex << setfill('0');
+    const auto iosFlags{os.flags(ios_base::hex | ios_base::right)};
+    const auto iosFill{os.fill('0')};
+    os.width(0);
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
         for (auto index = address; index < address + 16; ++index) {
@@ -55,6 +56,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
         if (address < buffer.size()) os << '\n';
     }
     os.flags(iosFlags);
+    os.fill(iosFill);
 
     return os;
 }
-- 
2.43.0


From d574740fddf3b266618fb1c804160c25af947814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 07/65] fix: dump all the bytes of the elements of two
 contiguous buffers

---
 include/tooling/HexDump.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index c8ab717..0f8a166 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -82,9 +82,12 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
 /// @return  a multi-lines string with the dumped data
 [[nodiscard]] static std::string hexDump(const Buffer auto& buffer1, const Buffer auto& buffer2) {
     std::vector<uint8_t> buffer;
-    buffer.resize(buffer1.size() + buffer2.size());
-    std::copy_n(buffer1.data(), buffer1.size(), buffer.data());
-    std::copy_n(buffer2.data(), buffer2.size(), buffer.data() + buffer1.size());
+    auto append = [&buffer](const auto& input) {
+        auto bytes = reinterpret_cast<const uint8_t*>(input.data());
+        buffer.insert(buffer.end(), bytes, bytes + input.size() * sizeof(typename std::pointer_traits<decltype(input.data())>::element_type));
+    };
+    append(buffer1);
+    append(buffer2);
 
     std::stringstream ss;
     ss << HexDump<decltype(buffer)>(buffer);
-- 
2.43.0


From 9a74aae636210799f67bb94aba240f3960c3146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 08/65] fix: write no more than the length bytes when encoding
 a payload size

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..f2a2154 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -99,7 +99,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From be7ad8f49ca0d60700a82a196806c31222d30129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 09/65] fix: frame buffers refer to the header of the frame
 itself, in its current size

The header buffer was captured at construction: it kept the size it had before buffers
were added and pointed into the original once the frame had been moved.
---
 include/http/WebSocket.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f2a2154..2425fb0 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -137,7 +137,12 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    /// @return buffers referring to this frame: first one is the header, whose size depends on the current payload size
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto frameBuffers = buffers;
+        frameBuffers.front() = {raw.data(), headerSize()};
+        return frameBuffers;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From 1bf7c1e7dfb334ba5af4fbf6e8c79cdb015d4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 10/65] fix: decode booleans

---
 include/weblink/Messages.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..f517802 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -320,6 +320,13 @@ public:
                 data = data.subspan(1 + sizeof(value));
             }
             break;
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_arithmetic_v<T>) {
+                param = static_cast<T>(codedType == CodedType::booleanTrue);
+                data = data.subspan(1);
+            }
+            break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
                 auto tupleSize = static_cast<size_t>(data[1]);
-- 
2.43.0


From a2445999b1fdcd2778b3413cd5b4880866c4f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 11/65] fix: messages with many parameters no longer overflow
 the encoding buffer

---
 include/weblink/Messages.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index f517802..c51a0f5 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <bit>
 #include <cstddef>
+#include <deque>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -166,8 +167,8 @@ class FunctionCall : public MessageBase<FunctionCall> {
     } head;
     static_assert(sizeof(Header) == 8, "FunctionCall header has to be 8 bytes long");
 
-    std::array<std::byte, 1024> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
-    size_t encodeBufferIndex = 0;
+    // When composing a msg, buffer doesn't represent the payload but some bufferized data (elements keep their addresses as others are added)
+    std::deque<std::array<std::byte, 1 + sizeof(double)>> buffer;
     friend class MessageBase<FunctionCall>;
 
     template<typename T>
@@ -211,10 +212,10 @@ public:
         }
 
         [[maybe_unused]] auto encodeType = [&, this](msg::CodedType type, auto size, WebSocketFrame& wsFrame) {
-            wsFrame.addBuffer(std::span(&buffer[encodeBufferIndex], 1 + sizeof(size)));
-            buffer[encodeBufferIndex++] = static_cast<std::byte>(type);
-            std::copy_n(reinterpret_cast<const std::byte*>(&size), sizeof(size), &buffer[encodeBufferIndex]);
-            encodeBufferIndex += sizeof(size);
+            auto& encoded = buffer.emplace_back();
+            encoded[0] = static_cast<std::byte>(type);
+            std::copy_n(reinterpret_cast<const std::byte*>(&size), sizeof(size), &encoded[1]);
+            wsFrame.addBuffer(std::span(encoded.data(), 1 + sizeof(size)));
             incrementPayloadSize(1 + sizeof(size));
         };
 
@@ -235,17 +236,18 @@ public:
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
         }
         else if constexpr (is_same_v<ParamType, bool>) {
-            frame.addBuffer(span(&buffer[encodeBufferIndex], 1));
-            buffer[encodeBufferIndex++] = static_cast<byte>(t ? msg::CodedType::booleanTrue : msg::CodedType::booleanFalse);
+            auto& encoded = buffer.emplace_back();
+            encoded[0] = static_cast<byte>(t ? msg::CodedType::booleanTrue : msg::CodedType::booleanFalse);
+            frame.addBuffer(span(encoded.data(), 1));
             incrementPayloadSize(1);
             std::cout << "-> encoded to bool of size " << 1 << " in a span.";
         }
         else if constexpr (is_arithmetic_v<ParamType>) {
             double number = t;
-            frame.addBuffer(span(&buffer[encodeBufferIndex], 1 + sizeof(number)));
-            buffer[encodeBufferIndex++] = static_cast<byte>(msg::CodedType::number);
-            copy_n(reinterpret_cast<const byte*>(&number), sizeof(number), &buffer[encodeBufferIndex]);
-            encodeBufferIndex += sizeof(number);
+            auto& encoded = buffer.emplace_back();
+            encoded[0] = static_cast<byte>(msg::CodedType::number);
+            copy_n(reinterpret_cast<const byte*>(&number), sizeof(number), &encoded[1]);
+            frame.addBuffer(span(encoded.data(), encoded.size()));
             incrementPayloadSize(1 + sizeof(number));
             std::cout << "-> encoded to number of size " << sizeof(number) << " in a span.";
         }
@@ -280,7 +282,7 @@ public:
             incrementPayloadSize(textSize);
         }
 
-        std::cout << "bufferIndex = " << encodeBufferIndex << " ,payloadSize = " << getPayloadSize() << "\n";
+        std::cout << "buffers = " << buffer.size() << " ,payloadSize = " << getPayloadSize() << "\n";
     }
 
     template<typename T>
-- 
2.43.0


From 4b1483bdf9bd93fb00a3d7de1c56f84c78a958d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 12/65] fix: refuse messages which announce more payload than
 received

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index c51a0f5..bd6f8d9 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -105,7 +105,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if ((data.size() - sizeof(typename T::Header)) < message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From 00f664a29c3821672a9b0982bb4fc15628bfd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 13/65] fix: check that the size fields of parameters were
 received before reading them

---
 include/weblink/Messages.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index bd6f8d9..569a63a 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -294,21 +294,21 @@ public:
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
             break;
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
             break;
@@ -331,6 +331,7 @@ public:
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
-- 
2.43.0


From e3a9b978152bde42988784ad4a81924667ed67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 14/65] fix: refuse numbers which the parameter type cannot
 represent

---
 include/weblink/Messages.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 569a63a..a4dc6b4 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -5,8 +5,10 @@
 
 #include <array>
 #include <bit>
+#include <cmath>
 #include <cstddef>
 #include <deque>
+#include <limits>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -318,6 +320,11 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T> && !is_same_v<T, bool>) {
+                    constexpr auto upperLimit = 2. * static_cast<double>(numeric_limits<T>::max() / 2 + 1);
+                    if (!(trunc(value) >= static_cast<double>(numeric_limits<T>::min()) && value < upperLimit))
+                        throw runtime_error("Received number cannot be represented in the parameter type");
+                }
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
-- 
2.43.0


From 494c4a1da7bca2fdd421694ce5e34914a123a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 15/65] fix: bind the callable and its arguments before they
 are moved from

---
 include/utils/TypeErasedFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/TypeErasedFunction.hpp b/include/utils/TypeErasedFunction.hpp
index 0b223e6..94cfd4e 100644
--- a/include/utils/TypeErasedFunction.hpp
+++ b/include/utils/TypeErasedFunction.hpp
@@ -132,7 +132,7 @@ public:
 
     template<typename T, typename... Args>
     TypeErasedFunction(T&& t, Args&&... args)
-        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))),
+        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(t, args...))),
           voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))) {
         std::cout << "TypeErasedFunction constructor(";
         ((std::cout << TypeName(args)), ...);
-- 
2.43.0


From a609ad81a8d4082c741bfabc8ca619ff03e52371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 16/65] fix: keep the partial method name of a request in the
 request itself

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..584e953 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer;
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From 38ffbe4981ebb9dd1621b8f35de1e4256244486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 17/65] fix: keep the status line of a response in the response
 itself while it is written

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 584e953..1a76847 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -210,7 +210,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -229,6 +228,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus;
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From 18e1fff27b46466b8e51d07d178172b940881d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 18/65] fix: name undefined methods without indexing out of the
 names table

---
 include/http/HTTPServer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 1a76847..14739d1 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -93,7 +93,9 @@ struct Request : Headers {
         return Method::Undefined;
     }
 
-    [[nodiscard]] std::string_view getMethodName() const { return methodNames[static_cast<size_t>(method)]; }
+    [[nodiscard]] std::string_view getMethodName() const {
+        return static_cast<size_t>(method) < methodNames.size() ? methodNames[static_cast<size_t>(method)] : "UNDEFINED";
+    }
         
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
-- 
2.43.0


From afb5a7a5890310032f7907a28c8be4033997db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 19/65] fix: refuse HTTP version numbers that do not fit an int

---
 include/http/HTTPServer.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 14739d1..05769b2 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -15,6 +15,7 @@
 #include <filesystem>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <locale>
 #include <memory>
 #include <optional>
@@ -127,6 +128,10 @@ private: // clang-format off
             default: return false;
         }};
         auto isDigit = [](char c) { return c >= '0' && c <= '9'; };
+        auto addDigit = [](int number, char digit) {
+            if (number > (std::numeric_limits<int>::max() - (digit - '0')) / 10) throw BadRequestException();
+            return number * 10 + (digit - '0');
+        };
         auto setState = [this](bool cond, State next) {
             state = next;
             if (cond) throw BadRequestException();
@@ -150,14 +155,14 @@ private: // clang-format off
             case versionT2: setState(input != 'T', versionP); break;
             case versionP: setState(input != 'P', versionSlash); break;
             case versionSlash: setState(input != '/', versionMajorStart); httpVersionMajor = 0; httpVersionMinor = 0; break;
-            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = httpVersionMajor * 10 + input - '0'; break;
+            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = addDigit(httpVersionMajor, input); break;
             case versionMajor: if (input == '.') state = versionMinorStart;
-                                    else if (isDigit(input)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
+                                    else if (isDigit(input)) httpVersionMajor = addDigit(httpVersionMajor, input);
                                     else throw BadRequestException();
                 break;
-            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = httpVersionMinor * 10 + input - '0'; break;
+            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = addDigit(httpVersionMinor, input); break;
             case versionMinor: if (input == '\r') state = newline1;
-                                    else if (isDigit(input)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
+                                    else if (isDigit(input)) httpVersionMinor = addDigit(httpVersionMinor, input);
                                     else throw BadRequestException();
                 break;
             case newline1: setState(input != '\n', headerLineStart); break;
-- 
2.43.0


From 7c50dced58539b5db405a34da123fddfb1a8abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 20/65] fix: accept headers without a space after the colon

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 05769b2..be2bf69 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -177,7 +177,7 @@ private: // clang-format off
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-            case spaceBeforeHeaderValue: setState(input != ' ', headerValue); break;
+            case spaceBeforeHeaderValue: state = headerValue; if (input == ' ') break; [[fallthrough]];
             case headerValue: if (input == '\r') { state = newline2; break; }
                                    else if (isCtrl(input)) throw BadRequestException();
                                    else { headers.back().value.push_back(input); break; }
-- 
2.43.0


From 38e204d87956333ad123071142f26618737c70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 21/65] fix: answer HEAD with the metadata of the resource and
 never with a body

---
 include/http/HTTPServer.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index be2bf69..ba71c2b 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -261,6 +261,13 @@ public:
     RequestHandler& operator=(RequestHandler&&) = default;
 
     Response handleRequest(Request request) {
+        auto response = respond(request);
+        if (request.method == Request::Method::Head) response.content.clear();
+        return response;
+    }
+
+private:
+    Response respond(const Request& request) {
         auto requestUri = uri::decode(request.uri);
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
         if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos)
@@ -283,10 +290,12 @@ public:
                     return response;
                 }
             }
-
+        }
+            [[fallthrough]];
+        case Request::Method::Head: {
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
-            if (file->isEncoded()) {
+            if (file->isEncoded() && request.method == Request::Method::Get) {
                 if (!request.headersContain("Accept-Encoding", file->getEncoding())) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
@@ -298,9 +307,6 @@ public:
             if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
 
         } break;
-        case Request::Method::Head:
-            if (!fs.open(requestPath)) return Response::getStatusResponse(Response::notFound);
-            break;
 
         default: return Response::getStatusResponse(Response::notImplemented);
         };
@@ -312,7 +318,6 @@ public:
         return response;
     }
 
-private:
     FS fs;
 };
 
-- 
2.43.0


From 43c284945d6b65c8a6ce6341e971a9ea153b17a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 22/65] fix: do not provide directories as empty files

---
 include/system/NativeFS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..cdad8a3 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -14,6 +14,8 @@ class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
         std::ifstream file;
+        std::error_code ignored;
+        if (std::filesystem::is_directory(rootPath / path, ignored)) return {};
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
         return {};
-- 
2.43.0


From 206da1bde3234a47ff03ed6c64887b3122583302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 23/65] fix: release upgraded connections and hand them over
 only when the response was sent

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index ba71c2b..9a1af8c 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -418,9 +418,10 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.stop(self);
             }
             else {
                 if (!ec) socket.shutdown(Net::Socket::shutdown_both);
-- 
2.43.0


From 908c08715fa15b71f4415fa2918f3e441d1d1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 24/65] fix: a frame header is complete when all its bytes are
 there, no earlier and no later

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 2425fb0..eb974e9 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -81,7 +81,7 @@ struct Header {
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
         if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= headerSize();
     }
 
     void setFIN(bool set) {
-- 
2.43.0


From 84d450a73270c7f24a48de2c3d6a98a8b7f67d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 25/65] fix: a frame is complete when its whole payload is
 there, not when half of it is

---
 include/http/WebSocket.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index eb974e9..7e6870f 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -207,8 +207,7 @@ public:
             }
         } break;
         case DecodingState::decodingPayload: {
-            decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            return decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size()))) == payloadSize;
         }
         }
         return false;
-- 
2.43.0


From e544a471ed67a3ab317a3b7c1e711c629fcf108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 26/65] fix: decode frame headers from the received bytes only
 and do not reserve what they announce

---
 include/http/WebSocket.hpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 7e6870f..e4b6ae3 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -172,10 +172,8 @@ public:
         };
         auto decodeHeader = [&](auto input) {
             payloadSize = reinterpret_cast<const Header*>(input)->payloadSize();
-            headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -187,20 +185,13 @@ public:
 
         switch (state) {
         case DecodingState::starting:
-            if (reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
-                reinterpret_cast<const Header*>(buffer.data())->dump();
-                decodeHeader(buffer.data());
-                if (decodePayload(buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize))) == payloadSize) return true;
-                state = DecodingState::decodingPayload;
-            }
-            else {
-                bufferizeHeaderData(buffer);
-                state = DecodingState::partialHeader;
-            }
-            break;
+            headerBuffer = {};
+            state = DecodingState::partialHeader;
+            [[fallthrough]];
         case DecodingState::partialHeader: {
             auto consumedData = bufferizeHeaderData(buffer);
             if (headerBuffer.isComplete(headerBufferParser)) {
+                headerBuffer.dump();
                 decodeHeader(headerBuffer.raw.data());
                 if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
@@ -225,7 +216,7 @@ private:
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-    size_t payloadSize, headerSize;
+    size_t payloadSize;
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
-- 
2.43.0


From d6ea34f771fb89c0ee3ff5773cc48ce194552abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 27/65] fix: deliver every frame of a received buffer, not only
 the first one

Frames which reach the server in the same read were dropped, and the end of
a frame which shares a read with the beginning of the next one desynchronised
the decoder.
---
 include/http/WebSocket.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index e4b6ae3..249046e 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -163,6 +163,9 @@ public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
     std::span<const std::byte> payload() const { return std::span(payloadBuffer.data(), payloadSize); }
 
+    /// @return number of bytes of the last parsed buffer which belong to the current frame
+    size_t consumed() const { return consumedBytes; }
+
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
     bool parse(std::span<const std::byte> buffer) {
@@ -183,6 +186,12 @@ public:
             return input.size();
         };
 
+        auto alreadyBuffered = headerBufferParser + payloadBuffer.size();
+        auto updateConsumed = [&](bool complete) {
+            consumedBytes = headerBufferParser + payloadBuffer.size() - alreadyBuffered;
+            return complete;
+        };
+
         switch (state) {
         case DecodingState::starting:
             headerBuffer = {};
@@ -193,15 +202,15 @@ public:
             if (headerBuffer.isComplete(headerBufferParser)) {
                 headerBuffer.dump();
                 decodeHeader(headerBuffer.raw.data());
-                if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
+                if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return updateConsumed(true);
                 state = DecodingState::decodingPayload;
             }
         } break;
         case DecodingState::decodingPayload: {
-            return decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size()))) == payloadSize;
+            return updateConsumed(decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size()))) == payloadSize);
         }
         }
-        return false;
+        return updateConsumed(false);
     }
 
     void reset() {
@@ -217,6 +226,7 @@ private:
     Header headerBuffer;
     size_t headerBufferParser;
     size_t payloadSize;
+    size_t consumedBytes = 0;
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
@@ -267,7 +277,9 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
+                while (!received.empty() && decoder.parse(received)) {
+                    received = received.subspan(decoder.consumed());
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From 9e07949a73257b437a97d7608143cf48af0370b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 28/65] fix: starting a started WebSocket does not read its
 socket twice

The constructor starts the WebSocket and WebLink starts it again: two reads
were pending in the same buffer and decoder.
---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 249046e..053fc39 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -248,6 +248,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From 191bcc15b90b252e8c3a7843fc860743949cc667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 29/65] fix: a WebSocket is closed once and does not read or
 notify afterwards

After a close frame the closed socket was read again, whose failure notified
the close handler a second time; frames which follow a close frame were
delivered and stop() let the pending read report an error.
---
 include/http/WebSocket.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 053fc39..bc5d030 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -12,6 +12,7 @@
 #include <memory>
 #include <set>
 #include <span>
+#include <utility>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -275,8 +276,15 @@ private:
     bool started;
 
 private:
+    /// Stops and notifies once: the handler may destroy this WebSocket
+    void close(CloseEvent event) {
+        stop();
+        if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
+    }
+
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
+            if (!started) return;
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
                 while (!received.empty() && decoder.parse(received)) {
@@ -290,19 +298,18 @@ private:
                         if (binaryHandler) binaryHandler(data);
                         break;
                     case Header::Opcode::connectionClose:
-                        if (closeHandler) closeHandler(CloseEvent{});
-                        stop();
-                        break;
+                        close(CloseEvent{});
+                        return;
                     default: log::debug("Unhandled frameType");
                     };
+                    if (!started) return;
                     decoder.reset();
                 }
                 read();
             }
             else {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-                if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                stop();
+                close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
             }
         });
     }
@@ -312,8 +319,7 @@ private:
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-                    if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
+                    close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 }
             }
         });
-- 
2.43.0


From cd86eb5e2d6674b68ac69c55e1af790e329a2edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 30/65] fix: a WebSocket owns the bytes it sends and sends one
 frame at a time

The frame header and the payload belong to the caller, whose stack or buffer
is gone or reused when the asynchronous write happens, and two writes on a
socket could interleave their bytes.
---
 include/http/WebSocket.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index bc5d030..83c5a23 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -8,6 +8,7 @@
 
 #include <array>
 #include <cstddef>
+#include <deque>
 #include <functional>
 #include <memory>
 #include <set>
@@ -256,6 +257,7 @@ public:
 
     void stop() {
         started = false;
+        pendingWrites.clear();
         socket.close();
     }
 
@@ -274,6 +276,7 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
+    std::deque<std::shared_ptr<std::vector<std::byte>>> pendingWrites;
 
 private:
     /// Stops and notifies once: the handler may destroy this WebSocket
@@ -315,13 +318,29 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        if (!started) return;
+        auto data = std::make_shared<std::vector<std::byte>>();
+        for (const auto& buffer : frame.toBuffers()) {
+            auto bytes = static_cast<const std::byte*>(buffer.data());
+            data->insert(data->end(), bytes, bytes + buffer.size());
+        }
+        pendingWrites.push_back(std::move(data));
+        if (pendingWrites.size() == 1) writeNext();
+    }
+
+    void writeNext() {
+        auto data = pendingWrites.front();
+        Net::AsyncWrite(socket, std::array{typename Net::ConstBuffer(data->data(), data->size())}, [this, data](std::error_code ec, std::size_t /*bytesTransferred*/) {
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
                     close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 }
             }
+            else if (started) {
+                pendingWrites.pop_front();
+                if (!pendingWrites.empty()) writeNext();
+            }
         });
     }
 };
-- 
2.43.0


From ad677635b4f141d98bbcedd1f723399a7c4c5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 31/65] fix: operations pending when a WebSocket is destroyed
 do not use it

Their completion handlers are called with operation_aborted after the
destruction and accessed the destroyed object.
---
 include/http/WebSocket.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 83c5a23..6ae5669 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -276,6 +276,7 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
+    std::shared_ptr<bool> lifetime = std::make_shared<bool>(true); // expires with this WebSocket: pending operations then do nothing
     std::deque<std::shared_ptr<std::vector<std::byte>>> pendingWrites;
 
 private:
@@ -286,8 +287,8 @@ private:
     }
 
     void read() {
-        socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
-            if (!started) return;
+        socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
+            if (alive.expired() || !started) return;
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
                 while (!received.empty() && decoder.parse(received)) {
@@ -305,7 +306,7 @@ private:
                         return;
                     default: log::debug("Unhandled frameType");
                     };
-                    if (!started) return;
+                    if (alive.expired() || !started) return;
                     decoder.reset();
                 }
                 read();
@@ -330,7 +331,8 @@ private:
 
     void writeNext() {
         auto data = pendingWrites.front();
-        Net::AsyncWrite(socket, std::array{typename Net::ConstBuffer(data->data(), data->size())}, [this, data](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        Net::AsyncWrite(socket, std::array{typename Net::ConstBuffer(data->data(), data->size())}, [this, data, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (alive.expired()) return;
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-- 
2.43.0


From ec8f4c44d34b12bca5b3451d57f5a0621da78b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 32/65] fix: ignore empty binary messages

Their command byte was read out of bounds.
---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..e321d10 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -47,6 +47,7 @@ public:
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
 
+            if (data.empty()) return;
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
-- 
2.43.0


From 6bf41e5660edf33f085bd9399537d51609b621c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 33/65] fix: malformed messages of a client do not stop the
 event loop

The exceptions thrown when a handshake, a call or a function name is
incomplete left run().
---
 include/weblink/WebLink.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index e321d10..b1d6d38 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -50,6 +50,10 @@ public:
             if (data.empty()) return;
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
+                if (data.size() < msg::Handshake{}.header().size()) {
+                    log::warn("Incomplete handshake ignored");
+                    break;
+                }
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
@@ -63,9 +67,9 @@ public:
 
             case msg::Command::callFunction: {
                 log::info("Function called !");
-                auto command = msg::FunctionCall::castFromRawData(data);
-                auto [functionName, paramData] = command->getFunctionName();
                 try {
+                    auto command = msg::FunctionCall::castFromRawData(data);
+                    auto [functionName, paramData] = command->getFunctionName();
                     eventsHandler(WebLinkEvent(WebLinkEvent::Code::cppFunctionCalled, id, functionName, paramData));
                 }
                 catch (const std::out_of_range& e) {
-- 
2.43.0


From b6575085481ff6566aa3263f68d5f1cd70f1d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 34/65] fix: a link is established once

A repeated handshake announced the UI again and leaked a log sink which used
the link after its destruction.
---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index b1d6d38..84f41cd 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -50,6 +50,7 @@ public:
             if (data.empty()) return;
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
+                if (logSink) break; // this link is already established
                 if (data.size() < msg::Handshake{}.header().size()) {
                     log::warn("Incomplete handshake ignored");
                     break;
-- 
2.43.0


From 867ebda332a418456a120129dc2b95a5f71591a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 35/65] fix: function returns are sent as functionReturn
 messages

The header of the base class, a callFunction one, was sent: the client took
returned exceptions for calls.
---
 include/weblink/Messages.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index a4dc6b4..84e6582 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -169,6 +169,11 @@ class FunctionCall : public MessageBase<FunctionCall> {
     } head;
     static_assert(sizeof(Header) == 8, "FunctionCall header has to be 8 bytes long");
 
+protected:
+    explicit FunctionCall(Command command) : head{.command = command} {}
+
+private:
+
     // When composing a msg, buffer doesn't represent the payload but some bufferized data (elements keep their addresses as others are added)
     std::deque<std::array<std::byte, 1 + sizeof(double)>> buffer;
     friend class MessageBase<FunctionCall>;
@@ -189,6 +194,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     }
 
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
@@ -358,14 +364,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From dd677c478f9c6f016150c28f50b50b748371bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 36/65] fix: refuse parameters of another type than the
 expected one

They were left undecoded: the called function received default values and the
following parameters were decoded from the wrong place.
---
 include/weblink/Messages.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 84e6582..a8acc9d 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -308,6 +308,8 @@ public:
                 param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : string received");
             break;
         case CodedType::string:
         case CodedType::exception:
@@ -319,6 +321,8 @@ public:
                 param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : string received");
             break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
@@ -334,6 +338,8 @@ public:
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                throw runtime_error("Wrong parameter type : number received");
             break;
         case CodedType::booleanTrue:
         case CodedType::booleanFalse:
@@ -341,6 +347,8 @@ public:
                 param = static_cast<T>(codedType == CodedType::booleanTrue);
                 data = data.subspan(1);
             }
+            else
+                throw runtime_error("Wrong parameter type : boolean received");
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
@@ -357,7 +365,12 @@ public:
                 throw runtime_error("Wrong parameter type : std::tuple expected");
             break;
 
-        default: param = {};
+        case CodedType::undefined:
+            param = {};
+            data = data.subspan(1);
+            break;
+
+        default: throw runtime_error("Unsupported parameter type : "s + string(toString(codedType)));
         }
     }
 };
-- 
2.43.0


From 72b9dfc6cbda3bbf75124ea03acee909d531b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 37/65] fix: each invocation of a JsFunction sends its own call
 message

The announced data size grew with each invocation of the same object.
---
 include/JsFunction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..d747b1c 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,8 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        static_assert(sizeof...(ts) < 255, "A call cannot have more than 254 parameters");
+        msg::FunctionCall command;
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
@@ -33,7 +34,6 @@ private:
     std::string name;
     WebFront& webFront;
     WebLinkId webLinkId;
-    msg::FunctionCall command;
 };
 
 } // namespace webfront
-- 
2.43.0


From e8beb7ce91325aa4ad05e799b32da917a3bbfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 38/65] fix: the elements of a tuple are not parameters of the
 call

---
 include/JsFunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index d747b1c..261986b 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -26,6 +26,7 @@ public:
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
+        command.setParametersCount(1 + sizeof...(ts)); // elements of tuples do not count
         
         webFront.getLink(webLinkId).sendFrame(std::move(frame));
     }
-- 
2.43.0


From a6c9efcd764a5813191ca3b9c1a3d7ca55b78a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 39/65] fix: refuse texts of more than 65535 bytes as
 parameters

Their size was truncated to 16 bits and the message sent was corrupt.
---
 include/weblink/Messages.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index a8acc9d..6e6a5e8 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -178,6 +178,10 @@ private:
     std::deque<std::array<std::byte, 1 + sizeof(double)>> buffer;
     friend class MessageBase<FunctionCall>;
 
+    static void checkTextSize(size_t size) {
+        if (size > std::numeric_limits<uint16_t>::max()) throw std::length_error("Text too long to be a parameter of a message");
+    }
+
     template<typename T>
     constexpr auto typeName() {
 #if defined(_MSC_VER)
@@ -230,8 +234,10 @@ public:
         [[maybe_unused]] auto encodeString = [&](const char* str, size_t size) constexpr {
             if (size < 256)
                 encodeType(msg::CodedType::smallString, static_cast<uint8_t>(size), frame);
-            else
+            else {
+                checkTextSize(size);
                 encodeType(msg::CodedType::string, static_cast<uint16_t>(size), frame);
+            }
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(str), size));
             incrementPayloadSize(size);
 
@@ -285,6 +291,7 @@ public:
         else if constexpr (is_base_of_v<std::exception, ParamType>) {
             std::cout << "Exception : " << t.what() << '\n';
             auto textSize = char_traits<char>::length(t.what());
+            checkTextSize(textSize);
             encodeType(msg::CodedType::exception, static_cast<uint16_t>(textSize), frame);
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(t.what()), textSize));
             incrementPayloadSize(textSize);
-- 
2.43.0


From 2fb2aa9e798c68083a872fdfdc6bc4279644ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 40/65] fix: refuse to inject texts of more than 65535 bytes,
 shorten such log lines

Their announced size was truncated to 16 bits.
---
 include/weblink/Messages.hpp | 6 +++++-
 include/weblink/WebLink.hpp  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 6e6a5e8..afaa663 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -149,11 +149,15 @@ class TextCommand : public MessageBase<TextCommand> {
     friend class MessageBase<TextCommand>;
 
 public:
+    static constexpr size_t maxTextSize = std::numeric_limits<uint16_t>::max();
+
     TextCommand(TxtOpcode opcode, std::string_view text)
         : head{.opcode = opcode,
                .lengthHi = static_cast<uint8_t>(text.size() >> 8),
                .lengthLo = static_cast<uint8_t>(text.size())},
-          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {}
+          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {
+        if (text.size() > maxTextSize) throw std::length_error("Text too long for a text command");
+    }
 
     [[nodiscard]] std::span<const std::byte> payload() const { return payloadSpan; }
     [[nodiscard]] size_t getPayloadSize() const { return static_cast<uint16_t>(256 * head.lengthHi + head.lengthLo); }
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 84f41cd..0204a4c 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -58,7 +58,7 @@ public:
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
+                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
                              (std::endian::native == std::endian::big &&
-- 
2.43.0


From 8e10304425c273dcb9fb8830318318722d45ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 41/65] fix: release the links whose WebSocket is closed

The closed event was never emitted: links, their sockets and their log sinks
were kept forever.
---
 include/weblink/WebLink.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 0204a4c..299890a 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -89,6 +89,11 @@ public:
             }
         });
 
+        ws.onClose([this](websocket::CloseEvent) {
+            auto handler = eventsHandler; // this link may be destroyed by the handler
+            handler({WebLinkEvent::Code::closed, id});
+        });
+
         ws.start();
     }
     WebLink(const WebLink&) = delete;
-- 
2.43.0


From e93f3baaffccceedc552bff35936aeb11b90ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 42/65] fix: clients may connect when no onUIStarted handler is
 set

bad_function_call left run().
---
 include/WebFront.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..6e92c04 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -111,7 +111,9 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked:
+            if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId});
+            break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
-- 
2.43.0


From 1b84f35b27a2d8bd773ea321f5b031eb9a75e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 43/65] fix: keep the registered C++ functions

Only a reference to the function object was kept: calls used a dangling
reference when it was a temporary or went out of scope.
---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 6e92c04..1b4d851 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::decay_t<decltype(function)>(std::forward<decltype(function)>(function))](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From d0fc4fe4348f1af73d042a106697105e1f3d762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 44/65] fix: a failing socket shutdown does not stop the event
 loop

It throws when the client has already reset the connection.
---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 9a1af8c..515fe4b 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -424,7 +424,7 @@ private:
                 connections.stop(self);
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                if (std::error_code ignored; !ec) socket.shutdown(Net::Socket::shutdown_both, ignored);
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
-- 
2.43.0


From 505531c73894b61dc8863d6c941d5c30810ad4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 45/65] fix: forget removed log sinks

The list of sinks grew with each WebSocket client.
---
 include/tooling/Logger.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/tooling/Logger.hpp b/include/tooling/Logger.hpp
index dd10a16..013bd8e 100644
--- a/include/tooling/Logger.hpp
+++ b/include/tooling/Logger.hpp
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <list>
+#include <map>
 #include <string_view>
 
 namespace webfront::log {
@@ -20,10 +21,14 @@ const auto clogSink = [](std::string_view t) { std::clog << t << "\n"; };
 inline bool logTypeEnabled[Debug + 1];
 inline struct Sinks {
     void operator()(std::string_view t) const {
-        for (auto& s : sinks)
-            if (s) s(t);
+        for (auto s = sinks.begin(); s != sinks.end();) {
+            auto id = s->first; // a sink may remove itself or others
+            if (s->second) s->second(t);
+            s = sinks.upper_bound(id);
+        }
     }
-    inline static std::vector<std::function<void(std::string_view)>> sinks;
+    inline static std::map<size_t, std::function<void(std::string_view)>> sinks;
+    inline static size_t nextId = 0;
 } out;
 
 
@@ -66,6 +71,6 @@ template<typename... Ts> void error(string_view fmt, Ts&&... ts) { if (is(Error)
 template<typename... Ts> void warn(string_view fmt, Ts&&... ts) { if (is(Warn)) log(Warn, fmt, std::forward<Ts>(ts)...); }
 template<typename... Ts> void info(string_view fmt, Ts&&... ts) { if (is(Info)) log(Info, fmt, std::forward<Ts>(ts)...); }
 void infoHex(string_view text, auto container) { if (is(Info)) { log(Info, text); out(utils::hexDump(container)); }}
-auto addSinks(auto&&... ts) { (out.sinks.push_back(std::forward<decltype(ts)>(ts)), ...); return out.sinks.size() - 1; }
-void removeSinks(auto&&... sinkIds) { ((out.sinks[sinkIds] = nullptr), ...); }
+auto addSinks(auto&&... ts) { (out.sinks.emplace(out.nextId++, std::forward<decltype(ts)>(ts)), ...); return out.nextId - 1; }
+void removeSinks(auto&&... sinkIds) { (out.sinks.erase(sinkIds), ...); }
 } //namespace webfront::log
\ No newline at end of file
-- 
2.43.0


From cc754ad86e3c54c53e1fdeed34de367b63ab5cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 46/65] fix: do not search for a link id forever when all are
 used

---
 include/WebFront.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 1b4d851..95babd0 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <limits>
 #include <map>
 #include <span>
 #include <string_view>
@@ -67,7 +68,7 @@ public:
 
     BasicWF(std::string_view port, std::filesystem::path docRoot = ".") : httpServer("0.0.0.0", port, docRoot), idsCounter(0) {
         httpServer.onUpgrade([this](typename Net::Socket&& socket, http::Protocol protocol) {
-            if (protocol == http::Protocol::WebSocket)
+            if (protocol == http::Protocol::WebSocket && webLinks.size() <= std::numeric_limits<WebLinkId>::max())
                 for (bool inserted = false; !inserted; ++idsCounter)
                     std::tie(std::ignore, inserted) = webLinks.try_emplace(idsCounter, std::move(socket), idsCounter,
                                                                            [this](WebLinkEvent event) { onEvent(event); });
-- 
2.43.0


From b6fb1871eb8f93dc2cb5e8c2be9011bafb146986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 47/65] fix: do not give the id of a closed link to a new one

---
 include/weblink/WebLink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 299890a..00bc199 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -13,7 +13,7 @@
 
 namespace webfront {
 
-using WebLinkId = uint16_t;
+using WebLinkId = uint64_t; /// never reused: the UI of a closed link must not reach another client
 
 struct WebLinkEvent {
     enum class Code { linked, closed, cppFunctionCalled };
-- 
2.43.0


From 46a93559728f691914b6fa189500214062bc4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 48/65] fix: SHA-1 of messages whose length needs more than 32
 bits

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index f798c5b..1646515 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -235,12 +235,12 @@ static constexpr size_t sha1Length = 5;
     };
 
     for (auto c : input) next(static_cast<uint8_t>(c));
-    auto b = byteCount * 8;
+    auto b = uint64_t{byteCount} * 8;
     next(0x80);
     if (blockByteIndex > 56)
         while (blockByteIndex != 0) next(0);
     while (blockByteIndex < 56) next(0);
-    for (auto value : {uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
+    for (auto value : {uint8_t(b >> 56), uint8_t(b >> 48), uint8_t(b >> 40), uint8_t(b >> 32), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
 
     return digest;
 }
-- 
2.43.0


From 6c06c043ae18902a7b517b97fad8a1c4cda50fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 49/65] fix: do not take the first character of an empty string
 to view it

---
 include/networking/BasicNetworking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..e2d140b 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -101,12 +101,12 @@ public:
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToMutableBuffer(&d.front(), d.size());
+        return ToMutableBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToConstBuffer(&d.front(), d.size());
+        return ToConstBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits>
-- 
2.43.0


From f69beb26f2a5b45f388319638fd186456bdf9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 50/65] fix: name the WebSocket subprotocol only to clients
 that offer it

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 515fe4b..847d2ac 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -286,7 +286,7 @@ private:
                     response.headers.emplace_back("Upgrade", "websocket");
                     response.headers.emplace_back("Connection", "Upgrade");
                     response.headers.emplace_back("Sec-WebSocket-Accept", websocket::getHashedSecKey(key.value()));
-                    response.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
+                    if (request.headersContain("Sec-WebSocket-Protocol", "WebFront_0.1")) response.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
                     return response;
                 }
             }
-- 
2.43.0


From 3d868a693612e2c3b7c2fc72ec1d80ca3bd1d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 51/65] fix: the blanks around the value of a header are not
 part of it, a tab may be

---
 include/http/HTTPServer.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 847d2ac..46c7025 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -128,6 +128,8 @@ private: // clang-format off
             default: return false;
         }};
         auto isDigit = [](char c) { return c >= '0' && c <= '9'; };
+        auto isBlank = [](char c) { return c == ' ' || c == '\t'; };
+        auto removeTrailingBlanks = [isBlank](std::string& text) { while (!text.empty() && isBlank(text.back())) text.pop_back(); };
         auto addDigit = [](int number, char digit) {
             if (number > (std::numeric_limits<int>::max() - (digit - '0')) / 10) throw BadRequestException();
             return number * 10 + (digit - '0');
@@ -177,9 +179,9 @@ private: // clang-format off
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-            case spaceBeforeHeaderValue: state = headerValue; if (input == ' ') break; [[fallthrough]];
-            case headerValue: if (input == '\r') { state = newline2; break; }
-                                   else if (isCtrl(input)) throw BadRequestException();
+            case spaceBeforeHeaderValue: if (isBlank(input)) break; state = headerValue; [[fallthrough]];
+            case headerValue: if (input == '\r') { removeTrailingBlanks(headers.back().value); state = newline2; break; }
+                                   else if (isCtrl(input) && !isBlank(input)) throw BadRequestException();
                                    else { headers.back().value.push_back(input); break; }
             case newline2: setState(input != '\n', headerLineStart); break;
             case newline3: if (input == '\n') { state = completed; return true; } else throw BadRequestException();
-- 
2.43.0


From 045ba20ffd99340892f500914f53caf230057fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 52/65] fix: the lines a header value is continued on are
 parted by a blank

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 46c7025..d41a0db 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -175,7 +175,7 @@ private: // clang-format off
             case headerLws:if (input == '\r') { state = newline2; break; }
                                  else if (input == ' ' || input == '\t') break;
                                  else if (isCtrl(input)) throw BadRequestException();
-                                 else { state = headerValue; headers.back().value.push_back(input); break; }
+                                 else { state = headerValue; auto& value = headers.back().value; if (!value.empty()) value.push_back(' '); value.push_back(input); break; }
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-- 
2.43.0


From b1dff9f5328f87b5d525fad98643a34ef1785b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 53/65] fix: messages sent in several frames are delivered
 whole

---
 include/http/WebSocket.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 6ae5669..1e57196 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -11,6 +11,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <optional>
 #include <set>
 #include <span>
 #include <utility>
@@ -160,6 +161,7 @@ struct Frame : public Header {
 class FrameDecoder {
 public:
     Header::Opcode frameType;
+    bool finalFrame; /// last, or only, frame of a message
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
@@ -179,6 +181,7 @@ public:
             payloadSize = reinterpret_cast<const Header*>(input)->payloadSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
+            finalFrame = reinterpret_cast<const Header*>(input)->FIN();
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -278,6 +281,8 @@ private:
     bool started;
     std::shared_ptr<bool> lifetime = std::make_shared<bool>(true); // expires with this WebSocket: pending operations then do nothing
     std::deque<std::shared_ptr<std::vector<std::byte>>> pendingWrites;
+    std::vector<std::byte> fragments;            // received frames of a message which is not complete
+    std::optional<Header::Opcode> fragmentsType; // of that message
 
 private:
     /// Stops and notifies once: the handler may destroy this WebSocket
@@ -286,6 +291,12 @@ private:
         if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
     }
 
+    /// @return true if the received frame is a part of a message
+    [[nodiscard]] bool isFragment() const {
+        if (decoder.frameType == Header::Opcode::continuation) return fragmentsType.has_value();
+        return !decoder.finalFrame && (decoder.frameType == Header::Opcode::text || decoder.frameType == Header::Opcode::binary);
+    }
+
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
             if (alive.expired() || !started) return;
@@ -294,7 +305,20 @@ private:
                 while (!received.empty() && decoder.parse(received)) {
                     received = received.subspan(decoder.consumed());
                     auto data = decoder.payload();
-                    switch (decoder.frameType) {
+                    auto frameType = decoder.frameType;
+                    std::vector<std::byte> message;
+                    if (isFragment()) {
+                        if (frameType != Header::Opcode::continuation) fragmentsType = frameType, fragments.clear();
+                        fragments.insert(fragments.end(), data.begin(), data.end());
+                        if (!decoder.finalFrame) {
+                            decoder.reset();
+                            continue;
+                        }
+                        message.swap(fragments);
+                        data = message;
+                        frameType = *std::exchange(fragmentsType, std::nullopt);
+                    }
+                    switch (frameType) {
                     case Header::Opcode::text:
                         if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
                         break;
-- 
2.43.0


From db45d299beb51a09aa67ff1772c31e0180069650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 54/65] fix: percent-encoding does not depend on the locale

---
 include/http/Encodings.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 1646515..00b4b5c 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -23,7 +23,8 @@ namespace uri {
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
     for (auto c : uri) {
         const auto byte = static_cast<unsigned char>(c);
-        if (std::isalnum(byte) || c == '-' || c == '_' || c == '.' || c == '~')
+        const bool alphanumeric = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); // whatever the locale
+        if (alphanumeric || c == '-' || c == '_' || c == '.' || c == '~')
             encoded += c;
         else {
             encoded += "%";
-- 
2.43.0


From 33fb280f1c689a0d125d4bcdeaab3794a015f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 55/65] fix: addresses of hex dumps are not grouped by the
 locale

---
 include/tooling/HexDump.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index 0f8a166..0bf1c1b 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -5,12 +5,15 @@
 #include "../details/C++20Support.hpp"
 
 #include <algorithm>
+#include <array>
+#include <charconv>
 #include <concepts>
 #include <cstdint>
 #include <iomanip>
 #include <ostream>
 #include <span>
 #include <sstream>
+#include <string_view>
 #include <vector>
 
 namespace webfront::utils {
@@ -40,7 +43,9 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     const auto iosFill{os.fill('0')};
     os.width(0);
     while (address < buffer.size()) {
-        os << setw(8) << address + h.startAddress;
+        array<char, 2 * sizeof(size_t)> digits; // not grouped, whatever the locale
+        auto end = to_chars(digits.data(), digits.data() + digits.size(), address + h.startAddress, 16).ptr;
+        os << setw(8) << string_view(digits.data(), static_cast<size_t>(end - digits.data()));
         for (auto index = address; index < address + 16; ++index) {
             if (index % 8 == 0) os << ' ';
             if (index < buffer.size())
-- 
2.43.0


From beb2a6031a7eb49be1d657fe35961d7f8a70fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 56/65] fix: limits of buffer views saturate instead of
 overflowing

---
 include/networking/BasicNetworking.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index e2d140b..4fd9b01 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -116,55 +116,61 @@ public:
 
     template<typename T, std::size_t S>
     static MutableBuffer Buffer(T (&d)[S], std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename T, std::size_t S>
     static ConstBuffer Buffer(const T (&d)[S], std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename T, std::size_t S>
     static MutableBuffer Buffer(std::array<T, S>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename T, std::size_t S>
     static ConstBuffer Buffer(std::array<const T, S>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename T, std::size_t S>
     static ConstBuffer Buffer(const std::array<T, S>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename T, typename Alloc>
     static MutableBuffer Buffer(std::vector<T, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename T, typename Alloc>
     static ConstBuffer Buffer(const std::vector<T, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), BytesCount<T>(s));
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(CharT));
+        return Buffer(Buffer(d), BytesCount<CharT>(s));
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(CharT));
+        return Buffer(Buffer(d), BytesCount<CharT>(s));
     }
 
     template<typename CharT, typename Traits>
     static ConstBuffer Buffer(std::basic_string_view<CharT, Traits> d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(CharT));
+        return Buffer(Buffer(d), BytesCount<CharT>(s));
     }
 
 private:
+    /// @return size of s elements, or the largest size if it cannot be represented
+    template<typename T>
+    static constexpr std::size_t BytesCount(std::size_t s) noexcept {
+        constexpr auto max = static_cast<std::size_t>(-1);
+        return s > max / sizeof(T) ? max : s * sizeof(T);
+    }
     template<typename T>
     static MutableBuffer ToMutableBuffer(T* data, std::size_t s) {
         return {s ? data : nullptr, s * sizeof(T)};
-- 
2.43.0


From e138582bf6381e8e0603f57a89a203f6c57ea2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 57/65] fix: parameters which cannot be encoded are refused by
 the compiler

---
 include/weblink/Messages.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index afaa663..567e89c 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -249,6 +249,7 @@ public:
         };
 
         if constexpr (is_tuple_v<ParamType>) {
+            static_assert(tuple_size_v<ParamType> < 256, "A tuple parameter cannot have more than 255 elements");
             uint8_t nbParams = static_cast<uint8_t>(tuple_size<ParamType>::value);
             encodeType(msg::CodedType::tuple, nbParams, frame);
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
@@ -300,6 +301,8 @@ public:
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(t.what()), textSize));
             incrementPayloadSize(textSize);
         }
+        else
+            static_assert(is_base_of_v<std::exception, ParamType>, "Type is not supported by JSFunction");
 
         std::cout << "buffers = " << buffer.size() << " ,payloadSize = " << getPayloadSize() << "\n";
     }
-- 
2.43.0


From 7b8656257d34822477ddc959f82850457564475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 58/65] fix: a file name cut by a NUL names nothing

---
 include/system/NativeFS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index cdad8a3..a93c3ff 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -13,6 +13,7 @@ namespace detail {
 class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
+        if (path.native().find('\0') != path.native().npos) return {}; // the system would ignore what follows
         std::ifstream file;
         std::error_code ignored;
         if (std::filesystem::is_directory(rootPath / path, ignored)) return {};
-- 
2.43.0


From 1577db2da4d9b9ffeeed5efd01e7d2c50738005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 59/65] fix: file extensions in upper case have their type too

---
 include/http/MimeType.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index 0333e7e..18f7371 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -2,6 +2,7 @@
 /// @author Ambroise Leclerc
 /// @brief MimeType constructible from a filename's extension and convertible to string
 #pragma once
+#include <algorithm>
 #include <array>
 #include <string_view>
 
@@ -16,6 +17,11 @@ struct MimeType {
 
     [[nodiscard]] static constexpr MimeType fromExtension(std::string_view e) {
         if (e.starts_with('.')) e.remove_prefix(1);
+        std::array<char, 8> lowerCase{};
+        if (e.size() <= lowerCase.size()) {
+            std::transform(e.begin(), e.end(), lowerCase.begin(), [](char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c; });
+            e = {lowerCase.data(), e.size()};
+        }
         if (e == "js" || e == "mjs") return js;
         if (e == "htm" || e == "html") return html;
         if (e == "jpg" || e == "jpeg") return jpg;
-- 
2.43.0


From 3f1b268de0deb5c852a5c4f4730cbc7d3da5ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 60/65] fix: the letter case of headers is ignored in every
 locale

---
 include/http/HTTPServer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d41a0db..e01edc4 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -55,7 +55,7 @@ public:
     [[nodiscard]] bool headersContain(std::string_view headerName, std::string_view text) const {
         for (auto header : getHeadersValues(headerName)) {
             if (std::search(header.cbegin(), header.cend(), text.cbegin(), text.cend(), [](char c1, char c2) {
-                    return (c1 == c2 || std::toupper(c1) == std::toupper(c2));
+                    return toUpper(c1) == toUpper(c2);
                 }) != header.cend())
                 return true;
         }
@@ -67,9 +67,12 @@ public:
 private:
     [[nodiscard]] static constexpr bool caseInsensitiveEqual(std::string_view s1, std::string_view s2) {
         return ((s1.size() == s2.size()) && std::equal(s1.begin(), s1.end(), s2.begin(), [](char c1, char c2) {
-                    return (c1 == c2 || std::toupper(c1) == std::toupper(c2));
+                    return toUpper(c1) == toUpper(c2);
                 }));
     }
+
+    /// ASCII only : some locales have other upper case letters for these
+    [[nodiscard]] static constexpr char toUpper(char c) { return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; }
 };
 
 struct BadRequestException : public std::runtime_error {
-- 
2.43.0


From 05d0f9f257600287964488055a84d7e24564a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 61/65] fix: list headers are compared element by element,
 encodings refused by weight are refused

---
 include/http/HTTPServer.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index e01edc4..a9d5b7e 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -62,6 +62,24 @@ public:
         return false;
     }
 
+    /// @return nothing if element is not in the lists of headerName fields (case insensitive), false if it is refused there (by a null weight)
+    [[nodiscard]] std::optional<bool> listed(std::string_view headerName, std::string_view element) const {
+        auto cut = [](std::string_view& text, char separator) {
+            auto part = text.substr(0, text.find(separator));
+            text.remove_prefix(std::min(part.size() + 1, text.size()));
+            part.remove_prefix(std::min(part.find_first_not_of(" \t"), part.size()));
+            return part.substr(0, part.find_last_not_of(" \t") + 1);
+        };
+        for (auto& value : getHeadersValues(headerName))
+            for (std::string_view list = value; !list.empty();) {
+                auto parameters = cut(list, ',');
+                if (!caseInsensitiveEqual(cut(parameters, ';'), element)) continue;
+                auto weight = cut(parameters, ';');
+                return !caseInsensitiveEqual(weight.substr(0, 3), "q=0") || weight.find_first_not_of("0.", 2) != std::string_view::npos;
+            }
+        return {};
+    }
+
     std::vector<Header> headers;
 
 private:
@@ -104,7 +122,7 @@ struct Request : Headers {
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
     [[nodiscard]] bool isUpgradeRequest(std::string_view protocol) const {
-        return headersContain("Connection", "upgrade") && headersContain("Upgrade", protocol);
+        return listed("Connection", "upgrade") && listed("Upgrade", protocol);
     }
 
     template<typename InputIterator>
@@ -291,7 +309,7 @@ private:
                     response.headers.emplace_back("Upgrade", "websocket");
                     response.headers.emplace_back("Connection", "Upgrade");
                     response.headers.emplace_back("Sec-WebSocket-Accept", websocket::getHashedSecKey(key.value()));
-                    if (request.headersContain("Sec-WebSocket-Protocol", "WebFront_0.1")) response.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
+                    if (request.listed("Sec-WebSocket-Protocol", "WebFront_0.1")) response.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
                     return response;
                 }
             }
@@ -301,7 +319,8 @@ private:
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
             if (file->isEncoded() && request.method == Request::Method::Get) {
-                if (!request.headersContain("Accept-Encoding", file->getEncoding())) {
+                auto others = request.listed("Accept-Encoding", "*").value_or(false);
+                if (!request.listed("Accept-Encoding", file->getEncoding()).value_or(others)) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
                 }
-- 
2.43.0


From 9f8739df8b61b876a4bdff38d318d683f65aea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 62/65] fix: look for the documents in every WebFront directory
 above the current one

---
 src/HelloWorld.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HelloWorld.cpp b/src/HelloWorld.cpp
index a4f9cc2..907ed1f 100644
--- a/src/HelloWorld.cpp
+++ b/src/HelloWorld.cpp
@@ -39,11 +39,11 @@ filesystem::path findDocRoot(string filename) {
     log::info("  not found : Looking now in temp directory {} ", temp_directory_path().string());
     if (exists(temp_directory_path() / filename)) return temp_directory_path();
 
-    path webfront, cp{current_path()};
+    path parent, cp{current_path()};
     for (auto element = cp.begin(); element != cp.end(); ++element) {
-        webfront = webfront / *element;
+        parent = parent / *element;
         if (*element == "WebFront") {
-            webfront = webfront / "src";
+            auto webfront = parent / "src";
             log::info("  not found : Looking now in source directory {}", webfront.string());
             if (exists(webfront / filename)) return webfront;
         }
-- 
2.43.0


From 6c1b1be0ac754910ced576d231324ab7b2999d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 63/65] fix: NetworkingMock.hpp includes what it uses

---
 include/networking/NetworkingMock.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/networking/NetworkingMock.hpp b/include/networking/NetworkingMock.hpp
index d5ee36e..bb4c552 100644
--- a/include/networking/NetworkingMock.hpp
+++ b/include/networking/NetworkingMock.hpp
@@ -2,10 +2,12 @@
 /// @author Ambroise Leclerc
 /// @brief a Networking mock implementation for testing purposes
 #pragma once
+#include "../tooling/Logger.hpp"
 #include "BasicNetworking.hpp"
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <future>
 #include <list>
 #include <string_view>
-- 
2.43.0


From 9ba5bd5a8afc7238aa5a86a863ebc4a7757f5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 64/65] fix: balance the braces of TCPSockets.hpp outside of
 Windows

---
 include/networking/TCPSockets.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/networking/TCPSockets.hpp b/include/networking/TCPSockets.hpp
index 27127ef..5e69bdc 100644
--- a/include/networking/TCPSockets.hpp
+++ b/include/networking/TCPSockets.hpp
@@ -71,7 +71,6 @@ protected:
     }
 
     static constexpr auto toTimeout(const std::chrono::microseconds value) noexcept { return static_cast<long>(value.count() / 1000); }
-};
 #else
     static bool initializeLib() noexcept { return true; }
     static void cleanupLib() noexcept {}
@@ -104,7 +103,7 @@ protected:
     static int getLastError() { return errno; }
 #endif
 };
-
+} // namespace
 
 class TCPSockets : public BasicNetworking<> {
 public:
-- 
2.43.0


From 41527d751aa4ea7f61347bcb7fff8bc81cd0d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 65/65] fix: Messages.hpp includes what it uses

---
 include/weblink/Messages.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 567e89c..7e0ae91 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -3,10 +3,12 @@
 /// @brief Messages exchanged between webfront clients and server
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <bit>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <deque>
 #include <limits>
 #include <span>
-- 
2.43.0

