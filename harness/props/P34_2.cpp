// The second translation unit of P34.
#include "tu.hpp"
// among the very first things that happen in the program: before any other object of static storage duration is initialised
__attribute__((init_priority(101))) static BeforeMain before_main;
const Table& second_table() { return TABLE; }
