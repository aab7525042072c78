// Stand-in for gch::small_vector, which is not installed here: the same
// interface over std::vector. Element order and iterator behaviour that the
// solver relies on are the same; only the small-buffer optimisation is missing.
#pragma once
#include <cstddef>
#include <memory>
#include <vector>
namespace gch
{
    template <typename T, unsigned N = 4, typename A = std::allocator<T>>
    class small_vector : public std::vector<T, A>
    {
    public:
        using std::vector<T, A>::vector;
    };
}
