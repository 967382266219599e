#define VARIANT cxx20
#include "p20_body.hpp"
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P20", "cases: random programs of nested scopes with guards of the three kinds, actions (plain, throwing, empty, running further scopes, adding actions), exceptions, returns, early destruction, scopes run in handlers and during unwinding; C++20 and C++14 builds; non-trivial: at least two actions run");
}
