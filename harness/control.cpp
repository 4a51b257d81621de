// Compiles whenever the compiler and the standard library work: tells a broken toolchain from a broken header
#include "leaf.h"
#include <atomic>
#include <list>
#include <map>
#include <mutex>
#include <thread>
int main() { return int(leafs::world().log.size()); }
