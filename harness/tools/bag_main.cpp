// the bag converter's main() under another name; a translation unit of its own, as in the real build
#define main bag_tool_main
#include "../tools/src/cloudini_rosbag_converter.cpp"
