// Bytes in use, where the sanitizer runtime can tell, and the judgement of samples of them.
#pragma once
#include "monitor.hpp"
#if defined(__SANITIZE_ADDRESS__)
#define MON_ALLOCATED 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ALLOCATED 1
#endif
#endif
#ifdef MON_ALLOCATED
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
inline long long allocated() { return static_cast<long long>(__sanitizer_get_current_allocated_bytes()); }
#else
inline long long allocated() { return 0; }
#endif
namespace mon {
/// a monotone growth over all samples is a violation; noise is not
inline void noGrowth(const std::vector<long long>& samples, const std::string& what, std::size_t per) {
    bool grows = true;
    for (std::size_t i = 1; i < samples.size(); ++i) grows &= samples[i] > samples[i - 1];
    if (!grows || samples.back() - samples[0] <= 400) return;
    std::string all;
    for (auto s : samples) all += " " + std::to_string(s);
    mon::fail("memory grows with each " + what, "bytes in use after each " + std::to_string(per) + ":" + all);
}
} // namespace mon
