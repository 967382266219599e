#include "p19_body.hpp"
int main(int c, char** v) { return pbt::main(c, v, "P19", "two operations of different threads overlap and at least three operations run concurrently"); }
