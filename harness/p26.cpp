#include "p26_body.hpp"
int main(int c, char** v) { return pbt::main(c, v, "P26", "at least two tasks are scheduled and at least one was still pending when the system was at rest"); }
