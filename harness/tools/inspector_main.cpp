// the inspector's main() under another name
#define main inspector_main
#include "../tools/src/mcap_header_inspector.cpp"
