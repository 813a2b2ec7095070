// the PCD converter's main() under another name
#define PCL_NO_PRECOMPILE
#define main pcd_tool_main
#include "../tools/src/pcd_to_cloudini_converter.cpp"
