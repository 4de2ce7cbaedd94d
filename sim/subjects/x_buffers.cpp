// buffered sorters over a simulated buffer provider: the simulator decides how
// much the provider grants, and whether it fails
#include "../subjects.h"
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    struct SimBuffer
    {
        template<typename T>
        struct buffer
        {
            std::size_t n;
            T* p;
            explicit buffer(std::size_t want): n(grant_buffer(want)), p(nullptr)
            {
                if (n) p = new T[n]();
            }
            buffer(const buffer&) = delete;
            buffer& operator=(const buffer&) = delete;
            ~buffer() { delete[] p; }
            std::size_t size() const { return n; }
            T* begin() { return p; }
            T* end() { return p + n; }
            const T* begin() const { return p; }
            const T* end() const { return p + n; }
            const T* cbegin() const { return p; }
            const T* cend() const { return p + n; }
            T& operator[](std::size_t i) { if (i >= n) report(V_BUFFER, "buffer index %zu of %zu", i, n); return p[i]; }
            const T& operator[](std::size_t i) const { if (i >= n) report(V_BUFFER, "buffer index %zu of %zu", i, n); return p[i]; }
        };
    };
    int go()
    {
        const std::uint32_t f = F_STABLE | F_BUFFERED | F_SIMBUF;
        add_ra<grail_sorter<SimBuffer>>("grail_sorter<simbuf>", f);
        add_ra<wiki_sorter<SimBuffer>>("wiki_sorter<simbuf>", f);
        return 0;
    }
    const int reg = go();
}
