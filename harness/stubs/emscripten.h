// Stand-in for Emscripten: the C interface is built natively, its console messages go nowhere.
#pragma once
#define EMSCRIPTEN_KEEPALIVE
template <class... A>
inline int vh_em_args(const A&... a) {
  volatile const void* sink = nullptr;
  ((sink = &a), ...);
  (void)sink;
  return 0;
}
#define EM_ASM(code, ...) ((void)vh_em_args(__VA_ARGS__))
#define EM_ASM_INT(code, ...) (vh_em_args(__VA_ARGS__))
