#ifndef WEB_EMSCRIPTEN_H
#define WEB_EMSCRIPTEN_H
#include "engine.hpp"
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#define EM_ASM(code, ...) ((void)::web::em_asm(#code __VA_OPT__(,) __VA_ARGS__))
#define EM_ASM_(code, ...) ((void)::web::em_asm(#code __VA_OPT__(,) __VA_ARGS__))
#define EM_ASM_INT(code, ...) ::web::to_i32(::web::em_asm(#code __VA_OPT__(,) __VA_ARGS__))
#define EM_ASM_DOUBLE(code, ...) ::web::em_asm(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM_ARGS EM_ASM_
#define EM_ASM_PTR(code, ...) ((void*)std::uintptr_t(::web::em_asm(#code __VA_OPT__(,) __VA_ARGS__)))
#define MAIN_THREAD_EM_ASM EM_ASM
#define MAIN_THREAD_EM_ASM_INT EM_ASM_INT
#endif
