#ifndef WEB_EMSCRIPTEN_VAL_H
#define WEB_EMSCRIPTEN_VAL_H
#include "../engine.hpp"
#include <string_view>
namespace emscripten
{
  class val
  {
    uint32_t h;
    struct raw { };
    val(raw, napi_value v) : h(web::put(v)) { }
    static napi_value js(val const& v) { return web::at(v.h); }
    template <typename T>
    static std::enable_if_t<std::is_arithmetic_v<T>, napi_value> js(T x)
    {
      napi_value v;
      if constexpr (std::is_same_v<T, bool>) napi_get_boolean(web::env, x, &v);
      else napi_create_double(web::env, double(x), &v);
      return v;
    }
    static napi_value js(std::string_view s) { napi_value v; napi_create_string_utf8(web::env, s.data(), s.size(), &v); return v; }
    static napi_value js(std::string const& s) { return js(std::string_view(s)); }
    static napi_value js(char const* s) { return js(std::string_view(s)); }
    template <typename R>
    static R from(napi_value v)
    {
      if constexpr (std::is_void_v<R>) return;
      else if constexpr (std::is_same_v<R, val>) return val(raw{}, v);
      else if constexpr (std::is_same_v<R, std::string>) return web::text_of(v);
      else if constexpr (std::is_same_v<R, bool>) { napi_value b; bool r; napi_coerce_to_bool(web::env, v, &b); napi_get_value_bool(web::env, b, &r); return r; }
      else { napi_value b; double r; web::ok(napi_coerce_to_number(web::env, v, &b), "number"); napi_get_value_double(web::env, b, &r); return R(r); }
    }
  public:
    val() : val(undefined()) { }
    val(val const& o) : h(0) { web::scope s; h = web::put(web::at(o.h)); }
    val(val&& o) : h(o.h) { o.h = uint32_t(-1); }
    template <typename T, typename = decltype(js(std::declval<T const&>())), typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, val> && !std::is_base_of_v<val, std::decay_t<T>>>>
    explicit val(T const& x) : h(0) { web::scope s; h = web::put(js(x)); }
    val& operator=(val const& o) { if (this != &o) { val t(o); std::swap(h, t.h); } return *this; }
    val& operator=(val&& o) { std::swap(h, o.h); return *this; }
    ~val() { if (h != uint32_t(-1)) web::drop(h); }

    static val undefined() { web::scope s; napi_value v; napi_get_undefined(web::env, &v); return val(raw{}, v); }
    static val null() { web::scope s; napi_value v; napi_get_null(web::env, &v); return val(raw{}, v); }
    static val object() { web::scope s; napi_value v; napi_create_object(web::env, &v); return val(raw{}, v); }
    static val array() { web::scope s; napi_value v; napi_create_array(web::env, &v); return val(raw{}, v); }
    static val global(char const* name = nullptr)
    {
      web::scope s; napi_value g = web::deref(web::global_);
      if (name) web::ok(napi_get_named_property(web::env, g, name, &g), name);
      return val(raw{}, g);
    }
    static val module_property(char const* name)
    {
      web::scope s; napi_value g = web::deref(web::module_);
      web::ok(napi_get_named_property(web::env, g, name, &g), name);
      return val(raw{}, g);
    }
    template <typename K>
    val operator[](K const& k) const
    {
      web::scope s; napi_value r;
      web::ok(napi_get_property(web::env, object_(), js(k), &r), "reading a property");
      return val(raw{}, r);
    }
    template <typename K, typename V>
    void set(K const& k, V const& v)
    {
      web::scope s;
      web::ok(napi_set_property(web::env, object_(), js(k), js(v)), "setting a property");
    }
    template <typename R, typename ...A>
    R call(char const* name, A&&... xs) const
    {
      web::scope s; napi_value f, r, a[sizeof...(A) + 1] = {js(xs)..., nullptr}, o = object_();
      web::ok(napi_get_named_property(web::env, o, name, &f), name);
      web::ok(napi_call_function(web::env, o, f, sizeof...(A), a, &r), name);
      return from<R>(r);
    }
    template <typename ...A>
    val operator()(A&&... xs) const
    {
      web::scope s; napi_value u, r, a[sizeof...(A) + 1] = {js(xs)..., nullptr};
      napi_get_undefined(web::env, &u);
      web::ok(napi_call_function(web::env, u, web::at(h), sizeof...(A), a, &r), "call");
      return from<val>(r);
    }
    template <typename R> R as() const { web::scope s; return from<R>(web::at(h)); }
    bool isTrue() const { web::scope s; napi_valuetype t; napi_typeof(web::env, web::at(h), &t); return t == napi_boolean && from<bool>(web::at(h)); }
    bool isUndefined() const { web::scope s; napi_valuetype t; napi_typeof(web::env, web::at(h), &t); return t == napi_undefined; }
    bool isNull() const { web::scope s; napi_valuetype t; napi_typeof(web::env, web::at(h), &t); return t == napi_null; }
    bool strictlyEquals(val const& o) const { web::scope s; bool r; napi_strict_equals(web::env, web::at(h), web::at(o.h), &r); return r; }
    bool isNumber() const { return type_() == napi_number; }
    bool isString() const { return type_() == napi_string; }
    bool isTrue_() const { return isTrue(); }
    bool isFalse() const { return type_() == napi_boolean && !as<bool>(); }
    bool isArray() const { web::scope s; bool r; napi_is_array(web::env, web::at(h), &r); return r; }
    bool equals(val const& o) const { return val::global("Object").call<bool>("is", *this, o) || strictlyEquals(o); }
    bool operator!() const { return !as<bool>(); }
    bool operator==(val const& o) const { return strictlyEquals(o); }
    bool operator!=(val const& o) const { return !strictlyEquals(o); }
    template <typename K> bool in(K const& k) const { web::scope s; bool r; napi_has_property(web::env, object_(), js(k), &r); return r; }
    bool hasOwnProperty(char const* k) const { web::scope s; bool r; napi_has_own_property(web::env, object_(), js(k), &r); return r; }
    template <typename K> bool delete_(K const& k) const { web::scope s; bool r; napi_delete_property(web::env, object_(), js(k), &r); return r; }
    bool instanceof(val const& c) const { web::scope s; bool r; napi_instanceof(web::env, web::at(h), web::at(c.h), &r); return r; }
    template <typename ...A> val new_(A&&... xs) const
    {
      web::scope s; napi_value r, a[sizeof...(A) + 1] = {js(xs)..., nullptr};
      web::ok(napi_new_instance(web::env, web::at(h), sizeof...(A), a, &r), "new");
      return val(raw{}, r);
    }
    val typeOf() const
    {
      static char const* const n[] = {"undefined", "object", "boolean", "number", "string", "symbol", "object", "function", "object", "bigint"};
      return val(n[type_()]);
    }
    static val u8string(char const* s) { return val(s); }
  private:
    napi_valuetype type_() const { web::scope s; napi_valuetype t; napi_typeof(web::env, web::at(h), &t); return t; }
    napi_value object_() const
    {
      napi_value v = web::at(h);
      napi_valuetype t; napi_typeof(web::env, v, &t);
      if (t == napi_undefined || t == napi_null) throw web::js_error("JavaScript threw TypeError: property of null or undefined");
      return v;
    }
  };
}
#endif
