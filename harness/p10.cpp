#define VARIANT cpp20
#include "p10_body.hpp"
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P10", "cases: pairs of small-alphabet sequences, the first built from pieces of the second, under six relations (most asymmetric), as vectors, lists, deques, forward lists, arrays, pointers, strings and views, in C++20 and C++17; non-trivial: the second sequence is not empty and occurs in the longer first one (sequences, strings), the element occurs and is not the only one (elements)");
}
