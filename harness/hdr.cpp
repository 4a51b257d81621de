// Compiled once per header: the header alone, and once more
#include HDR
#include HDR
extern "C" void header_included(const char* name);
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
namespace { struct Registered { Registered() { header_included(VF_STR(HDR)); } } registered; }
