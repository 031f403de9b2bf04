// A JavaScript engine for what nbdl runs in a browser: harnesses with
// "mc-flags: --node" are built as Node addons, so that the JavaScript within
// nbdl's headers (EM_ASM) and emscripten::val run in a real engine, on the
// document of dom.js.
#ifndef WEB_ENGINE_HPP
#define WEB_ENGINE_HPP
#include <node_api.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

namespace web
{
  inline napi_env env = nullptr;
  inline napi_ref table_ = nullptr, module_ = nullptr, global_ = nullptr, compile_ = nullptr;

  struct js_error : std::runtime_error { using std::runtime_error::runtime_error; };

  inline void die(char const* what) { std::fprintf(stderr, "ERROR: %s\n", what); std::abort(); }

  struct scope
  {
    napi_handle_scope s;
    scope() { napi_open_handle_scope(env, &s); }
    ~scope() { napi_close_handle_scope(env, s); }
    scope(scope const&) = delete;
  };

  inline napi_value deref(napi_ref r) { napi_value v = nullptr; napi_get_reference_value(env, r, &v); return v; }

  inline std::string text_of(napi_value v)
  {
    napi_value s; std::size_t n = 0;
    if (napi_coerce_to_string(env, v, &s) != napi_ok) return "?";
    napi_get_value_string_utf8(env, s, nullptr, 0, &n);
    std::string r(n + 1, '\0');
    napi_get_value_string_utf8(env, s, r.data(), n + 1, &n);
    r.resize(n);
    return r;
  }
  // what JavaScript throws becomes a C++ exception
  inline void ok(napi_status st, char const* what)
  {
    if (st == napi_ok) return;
    bool pending = false;
    napi_is_exception_pending(env, &pending);
    if (!pending) throw js_error(std::string("JavaScript: ") + what + " failed");
    napi_value e;
    napi_get_and_clear_last_exception(env, &e);
    throw js_error("JavaScript threw " + text_of(e));
  }

  // ---- values held by C++: slots of a table --------------------------------
  inline std::vector<uint32_t> free_slots;
  inline uint32_t used_slots = 0;
  inline long live_slots = 0;
  inline uint32_t put(napi_value v)
  {
    uint32_t i;
    if (free_slots.empty()) i = used_slots++;
    else { i = free_slots.back(); free_slots.pop_back(); }
    napi_set_element(env, deref(table_), i, v);
    live_slots++;
    return i;
  }
  inline napi_value at(uint32_t i) { napi_value v; ok(napi_get_element(env, deref(table_), i, &v), "table"); return v; }
  inline void drop(uint32_t i)
  {
    scope s;
    napi_value u; napi_get_undefined(env, &u);
    napi_set_element(env, deref(table_), i, u);
    free_slots.push_back(i);
    live_slots--;
  }

  // ---- EM_ASM ----------------------------------------------------------------
  inline std::map<char const*, napi_ref> compiled;
  template <typename T>
  double number(T x)
  {
    if constexpr (std::is_pointer_v<T>) return double(reinterpret_cast<std::uintptr_t>(x));
    else if constexpr (std::is_enum_v<T>) return number(static_cast<std::underlying_type_t<T>>(x));
    else if constexpr (std::is_integral_v<T> && sizeof(T) <= 4) return double(static_cast<int32_t>(x));   // an i32 has no sign of its own
    else return double(x);
  }
  inline double em_asm_(char const* code, double const* args, int n)
  {
    scope s;
    auto it = compiled.find(code);
    if (it == compiled.end())
    {
      napi_value c, u, f; napi_ref r;
      napi_create_string_utf8(env, code, NAPI_AUTO_LENGTH, &c);
      napi_get_undefined(env, &u);
      ok(napi_call_function(env, u, deref(compile_), 1, &c, &f), "compile");
      napi_create_reference(env, f, 1, &r);
      it = compiled.emplace(code, r).first;
    }
    napi_value v[12], u, res;
    for (int i = 0; i < n; i++) napi_create_double(env, args[i], &v[i]);
    napi_get_undefined(env, &u);
    ok(napi_call_function(env, u, deref(it->second), n, v, &res), "EM_ASM");
    napi_value num; double d = 0;
    napi_valuetype t; napi_typeof(env, res, &t);
    if (t == napi_undefined) return 0;
    ok(napi_coerce_to_number(env, res, &num), "result of EM_ASM");
    napi_get_value_double(env, num, &d);
    return d;
  }
  template <typename ...Ts>
  double em_asm(char const* code, Ts... xs)
  {
    double a[sizeof...(Ts) + 1] = {number(xs)..., 0};
    return em_asm_(code, a, sizeof...(Ts));
  }
  inline int to_i32(double d) { return d != d ? 0 : int32_t(int64_t(d)); }

  // a number for each address that is used as one
  inline std::unordered_map<void const*, int> handles;
  template <typename I>
  I handle_of(void const* p) { return handles.emplace(p, int(handles.size()) + 1).first->second; }

  // ---- functions of Emscripten's runtime ------------------------------------
  inline void* pointer_arg(napi_value v) { double d = 0; napi_get_value_double(env, v, &d); return reinterpret_cast<void*>(std::uintptr_t(d)); }
  inline napi_value utf8_to_string(napi_env e, napi_callback_info info)
  {
    napi_value a[2], r; std::size_t n = 2;
    napi_get_cb_info(e, info, &n, a, nullptr, nullptr);
    auto p = static_cast<char const*>(pointer_arg(a[0]));
    napi_valuetype t; napi_typeof(e, a[1], &t);
    // ends at the first null character, within the length if there is one
    std::size_t max = std::size_t(-1), len = 0;
    if (n == 2 && t == napi_number) { double d; napi_get_value_double(e, a[1], &d); max = std::size_t(d); }
    while (len < max && p[len]) len++;
    napi_create_string_utf8(e, p, len, &r);
    return r;
  }
  inline napi_value string_to_ascii(napi_env e, napi_callback_info info)
  {
    napi_value a[2], r; std::size_t n = 2;
    napi_get_cb_info(e, info, &n, a, nullptr, nullptr);
    std::size_t len = 0;
    napi_get_value_string_utf16(e, a[0], nullptr, 0, &len);
    std::vector<char16_t> b(len + 1);
    napi_get_value_string_utf16(e, a[0], b.data(), len + 1, &len);
    auto p = static_cast<char*>(pointer_arg(a[1]));
    for (std::size_t i = 0; i < len; i++) p[i] = char(b[i]);
    p[len] = 0;
    napi_get_undefined(e, &r);
    return r;
  }
  // bytes of the heap as an Uint8Array: (pointer, length)
  inline napi_value heap_bytes(napi_env e, napi_callback_info info)
  {
    napi_value a[3], r; std::size_t n = 3; double len = 0; bool write = false;
    napi_get_cb_info(e, info, &n, a, nullptr, nullptr);
    auto p = static_cast<unsigned char*>(pointer_arg(a[0]));
    napi_valuetype t; napi_typeof(e, a[1], &t);
    napi_get_undefined(e, &r);
    if (t == napi_number)
    {
      // read: a copy of the bytes
      napi_get_value_double(e, a[1], &len);
      void* d; napi_value ab;
      napi_create_arraybuffer(e, std::size_t(len), &d, &ab);
      for (std::size_t i = 0; i < std::size_t(len); i++) static_cast<unsigned char*>(d)[i] = p[i];
      napi_create_typedarray(e, napi_uint8_array, std::size_t(len), ab, 0, &r);
    }
    else
    {
      // write: what is given
      napi_typedarray_type tt; std::size_t l; void* d; napi_value ab; std::size_t off;
      if (napi_get_typedarray_info(e, a[1], &tt, &l, &d, &ab, &off) == napi_ok)
        for (std::size_t i = 0; i < l; i++) p[i] = static_cast<unsigned char*>(d)[i];
    }
    (void)write;
    return r;
  }
  inline void function(char const* name, napi_callback f, napi_value where)
  {
    napi_value v;
    napi_create_function(env, name, NAPI_AUTO_LENGTH, f, nullptr, &v);
    napi_set_named_property(env, where, name, v);
  }
  // a C function of one pointer that JavaScript calls; exceptions cannot leave it
  template <void (*F)(void*)>
  napi_value callback1(napi_env e, napi_callback_info info)
  {
    napi_value a[1], r; std::size_t n = 1;
    napi_get_cb_info(e, info, &n, a, nullptr, nullptr);
    try { F(pointer_arg(a[0])); }
    catch (std::exception const& x) { napi_throw_error(e, nullptr, x.what()); }
    napi_get_undefined(e, &r);
    return r;
  }
  // hooks of a harness: called once, when Module exists
  inline std::vector<void (*)(napi_value)>& on_module() { static std::vector<void (*)(napi_value)> v; return v; }
  struct at_module { at_module(void (*f)(napi_value)) { on_module().push_back(f); } };
}

int mc_main(int argc, char** argv);

namespace web
{
  inline napi_value start(napi_env e, napi_callback_info info)
  {
    napi_value a[3], g; std::size_t n = 3;
    env = e;
    napi_get_cb_info(e, info, &n, a, nullptr, nullptr);      // argv, Module, compile
    napi_value arr; napi_create_array(e, &arr);
    napi_create_reference(e, arr, 1, &table_);
    napi_create_reference(e, a[1], 1, &module_);
    napi_create_reference(e, a[2], 1, &compile_);
    napi_get_global(e, &g);
    napi_create_reference(e, g, 1, &global_);
    function("UTF8ToString", utf8_to_string, g);
    function("stringToAscii", string_to_ascii, g);
    function("stringToAscii", string_to_ascii, a[1]);
    function("nbdl_heap_bytes", heap_bytes, g);
    for (auto f : on_module()) f(a[1]);
    uint32_t argc = 0; napi_get_array_length(e, a[0], &argc);
    std::vector<std::string> args(argc);
    std::vector<char*> ptrs;
    for (uint32_t i = 0; i < argc; i++) { napi_value v; napi_get_element(e, a[0], i, &v); args[i] = text_of(v); }
    for (auto& s : args) ptrs.push_back(s.data());
    ptrs.push_back(nullptr);
    int rc = 0;
    try { rc = mc_main(int(argc), ptrs.data()); }
    catch (std::exception const& x) { std::fprintf(stderr, "ERROR: %s\n", x.what()); rc = 97; }
    std::fflush(stdout); std::fflush(stderr);
    napi_value r; napi_create_int32(e, rc, &r);
    return r;
  }
}

extern "C" inline napi_value nbdl_web_init(napi_env e, napi_value exports)
{
  napi_value f;
  napi_create_function(e, "start", NAPI_AUTO_LENGTH, web::start, nullptr, &f);
  napi_set_named_property(e, exports, "start", f);
  return exports;
}
extern "C" __attribute__((visibility("default"), weak)) napi_value napi_register_module_v1(napi_env e, napi_value exports) { return nbdl_web_init(e, exports); }
extern "C" __attribute__((visibility("default"), weak)) int32_t node_api_module_get_api_version_v1() { return 8; }
#endif
