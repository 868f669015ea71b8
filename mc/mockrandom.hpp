// Scripted random numbers: stands in for src/hap/GRandomFactory.cpp and src/hap/GRandomBase.cpp.
// Every raw number of every Gem::Hap generator of the program comes from one source, in the order of the calls.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace mockrnd {
    using source_t = std::function<std::uint32_t()>;
    void source(source_t s);             // every raw number from now on
    void seed(std::uint64_t s);          // back to the built-in generator, restarted
    std::uint32_t pseudo();              // next number of the built-in generator
    long draws();                        // raw numbers handed out so far
    // first the given numbers, then the built-in generator
    void script(std::vector<std::uint32_t> v, std::uint64_t s = 1);
    // raw numbers which make std::generate_canonical<double,53> return (about) u: two of them per double
    std::vector<std::uint32_t> canon(std::vector<double> u);
    std::vector<std::uint32_t> canon53(std::vector<double> u); // the same for 0 <= u < 1 with full accuracy
}
