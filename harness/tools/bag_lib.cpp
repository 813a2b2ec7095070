#include "../tools/src/mcap_converter.cpp"
