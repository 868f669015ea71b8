#include <cmath>
#include "mockrandom.hpp"
#include "hap/GRandomFactory.hpp"
#include "hap/GRandomBase.hpp"
#include <mutex>
#include <memory>
namespace mockrnd {
    static std::mutex &mtx() { static std::mutex *m = new std::mutex; return *m; }
    static source_t &src() { static source_t *s = new source_t; return *s; }
    static std::uint64_t state = 1;
    static long n = 0;
    static std::uint32_t step() {   // splitmix64
        std::uint64_t z = (state += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return std::uint32_t((z ^ (z >> 31)) >> 16);
    }
    void source(source_t s) { std::lock_guard<std::mutex> l(mtx()); src() = std::move(s); }
    void seed(std::uint64_t s) { std::lock_guard<std::mutex> l(mtx()); src() = nullptr; state = s * 7919 + 1; }
    std::uint32_t pseudo() { return step(); }
    long draws() { return n; }
    void script(std::vector<std::uint32_t> v, std::uint64_t s) {
        seed(s);
        auto p = std::make_shared<std::pair<std::vector<std::uint32_t>, std::size_t>>(std::move(v), 0);
        source([p]() { return p->second < p->first.size() ? p->first[p->second++] : step(); });
    }
    std::vector<std::uint32_t> canon(std::vector<double> u) {
        std::vector<std::uint32_t> r;
        for (double x : u) { r.push_back(x >= 1. ? 0xFFFFF000u : 0u); r.push_back(x >= 1. ? 0xFFFFFFFFu : std::uint32_t(x * 4294967296.0)); }
        return r;
    }
    std::vector<std::uint32_t> canon53(std::vector<double> u) {
        std::vector<std::uint32_t> r;
        for (double x : u) { double hi = std::floor(x * 4294967296.0), lo = std::floor((x * 4294967296.0 - hi) * 4294967296.0); r.push_back(std::uint32_t(lo)); r.push_back(std::uint32_t(hi)); }
        return r;
    }
    std::uint32_t next() {
        std::lock_guard<std::mutex> l(mtx()); n++;
        return src() ? src()() : step();
    }
}
namespace Gem { namespace Hap {
GRandomBase::GRandomBase() = default;
GRandomBase::~GRandomBase() = default;
GRandomBase::result_type GRandomBase::operator()() { return mockrnd::next(); }

std::atomic<bool> GRandomFactory::m_multiple_call_trap(false);
GRandomFactory::GRandomFactory() { }
GRandomFactory::~GRandomFactory() { }
void GRandomFactory::init() { }
void GRandomFactory::finalize() { }
void GRandomFactory::setNProducerThreads(const std::uint16_t &) { }
std::size_t GRandomFactory::getCurrentArraySize() const { return DEFAULTARRAYSIZE; }
std::size_t GRandomFactory::getBufferSize() const { return DEFAULTFACTORYBUFFERSIZE; }
seed_type GRandomFactory::getSeed() { return seed_type(12345); }
std::unique_ptr<random_container> GRandomFactory::getNewRandomContainer() {
    static G_BASE_GENERATOR g(1);
    return std::unique_ptr<random_container>(new random_container(g));
}
void GRandomFactory::returnUsedPackage(std::unique_ptr<random_container> &&p) { auto q = std::move(p); }
void GRandomFactory::producer(std::uint32_t) { }
} }
