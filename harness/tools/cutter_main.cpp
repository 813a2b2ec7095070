// the cutter's main() under another name
#define main cutter_main
#include "../tools/src/mcap_cutter.cpp"
