// the benchmark's main() under another name
#define main benchmark_main
#include "../tools/src/mcap_codec_benchmark.cpp"
