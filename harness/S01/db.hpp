// The entities, a connector from nbdl::sql_db to a real SQLite database in
// memory, and a model of the rows that must be there.
#ifndef S01_DB_HPP
#define S01_DB_HPP
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/update.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <nbdl/string.hpp>
#include <list>
#include <map>
#include <optional>
#include <sqlite3.h>
#include <string>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;

struct foo   { int foo_value; };
struct tri   { int a; std::string b; int c; };
struct bar   { std::string bar_value; foo bar_foo; };
struct two   { foo left; int v; foo right; };
struct mixed { tri t; bar b; std::string s; foo f; };
struct deep  { two d_two; std::string s; bar d_bar; };
struct box   { int n; std::vector<foo> foos; };
struct shelf { std::vector<bar> bars; std::string s; std::list<tri> tris; };
struct house { foo door; std::vector<box> boxes; int no; };
namespace nbdl
{
  NBDL_ENTITY(foo, foo_value);
  NBDL_ENTITY(tri, a, b, c);
  NBDL_ENTITY(bar, bar_value, bar_foo);
  NBDL_ENTITY(two, left, v, right);
  NBDL_ENTITY(mixed, t, b, s, f);
  NBDL_ENTITY(deep, d_two, s, d_bar);
  NBDL_ENTITY(box, n, foos);
  NBDL_ENTITY(shelf, bars, s, tris);
  NBDL_ENTITY(house, door, boxes, no);
}

namespace my
{
  using row = std::map<std::string, std::string>;      // column -> value
  using table = std::map<long, row>;                   // id -> row

  struct database
  {
    sqlite3* db = nullptr;
    std::vector<std::string> log;
    std::map<std::string, table> model;

    void exec(std::string const& sql)
    {
      char* e = nullptr;
      if (sqlite3_exec(db, sql.c_str(), nullptr, nullptr, &e) != SQLITE_OK) { mc::fail(mc::str("setup: ", sql, ": ", e)); sqlite3_free(e); }
    }
    // one database for all executions; each one is undone at its end
    static sqlite3*& shared() { static sqlite3* d = nullptr; return d; }
    static std::map<std::string, sqlite3_stmt*>& readers() { static std::map<std::string, sqlite3_stmt*> r; return r; }
    database()
    {
      if (shared())
      {
        db = shared();
        for (auto& [name, s] : readers()) model[name];
        exec("BEGIN");
        return;
      }
      sqlite3_open(":memory:", &db);
      shared() = db;
      auto make = [&](std::string name, std::vector<std::string> cols)
      {
        std::string s = "CREATE TABLE \"" + name + "\" (\"" + name + "_id\" INTEGER PRIMARY KEY AUTOINCREMENT";
        for (auto& c : cols) s += ",\"" + c + "\"";
        exec(s + ")");
        model[name];
        sqlite3_prepare_v2(db, ("SELECT * FROM \"" + name + "\"").c_str(), -1, &readers()[name], nullptr);
      };
      make("foo", {"foo_value", "box_id", "owner", "owner_no"});
      make("tri", {"a", "b", "c", "shelf_id", "owner", "owner_no"});
      make("bar", {"bar_value", "bar_foo_id", "shelf_id", "owner", "owner_no"});
      make("two", {"left_id", "v", "right_id", "owner", "owner_no"});
      make("mixed", {"t_id", "b_id", "s", "f_id"});
      make("deep", {"d_two_id", "s", "d_bar_id"});
      make("box", {"n", "house_id"});
      make("shelf", {"s"});
      make("house", {"door_id", "no"});
      exec("BEGIN");
    }
    ~database() { exec("ROLLBACK"); }
    database(database const&) = delete;

    static void bind(sqlite3_stmt* s, int i, int v) { sqlite3_bind_int(s, i, v); }
    static void bind(sqlite3_stmt* s, int i, std::string const& v) { sqlite3_bind_text(s, i, v.data(), v.size(), SQLITE_TRANSIENT); }
    template <typename T, typename K> static void bind(sqlite3_stmt* s, int i, nbdl::key_impl<T, K> const& v) { sqlite3_bind_int64(s, i, v.value); }

    // runs a statement that nbdl made; every value must have its placeholder
    template <typename Stmt> std::optional<std::vector<std::vector<std::string>>> run(Stmt const& st)
    {
      std::string sql(hana::first(st).c_str(), hana::size(hana::first(st)));
      log.push_back(sql);
      mc::note(sql);
      sqlite3_stmt* s = nullptr;
      char const* tail = nullptr;
      if (sqlite3_prepare_v2(db, sql.c_str(), -1, &s, &tail) != SQLITE_OK)
      {
        mc::fail(mc::str("the database refuses ", sql, ": ", sqlite3_errmsg(db)));
        return {};
      }
      mc::check(*tail == 0, "more than one statement: " + sql);
      int n = 0;
      hana::for_each(hana::second(st), [&](auto const& v) { bind(s, ++n, v); });
      mc::check(sqlite3_bind_parameter_count(s) == n, mc::str(n, " values for ", sqlite3_bind_parameter_count(s), " placeholders in ", sql));
      std::vector<std::vector<std::string>> rows;
      int rc;
      while ((rc = sqlite3_step(s)) == SQLITE_ROW)
      {
        rows.emplace_back();
        for (int i = 0; i < sqlite3_column_count(s); i++)
        {
          auto t = sqlite3_column_text(s, i);
          rows.back().push_back(t ? std::string(reinterpret_cast<char const*>(t), sqlite3_column_bytes(s, i)) : "NULL");
        }
      }
      mc::check(rc == SQLITE_DONE, mc::str(sql, ": ", sqlite3_errmsg(db)));
      sqlite3_finalize(s);
      mc::step(); mc::eval();
      return rows;
    }

    // what is really in the tables
    void compare(std::string const& what)
    {
      for (auto& [name, want] : model)
      {
        table got;
        sqlite3_stmt* s = readers()[name];
        while (sqlite3_step(s) == SQLITE_ROW)
        {
          row r;
          for (int i = 1; i < sqlite3_column_count(s); i++)
            if (auto t = sqlite3_column_text(s, i)) r[sqlite3_column_name(s, i)] = std::string(reinterpret_cast<char const*>(t), sqlite3_column_bytes(s, i));
          got[sqlite3_column_int64(s, 0)] = r;
        }
        sqlite3_reset(s);
        if (got != want) { mc::fail(mc::str(what, ": table ", name, " holds ", show(got), " instead of ", show(want))); return; }
      }
      std::string st;
      for (auto& [name, t] : model) st += name + show(t);
      mc::state(st);
    }
    static std::string show(table const& t)
    {
      std::string s;
      for (auto& [id, r] : t) { s += mc::str("[", id); for (auto& [c, v] : r) s += " " + c + "=" + v; s += "]"; }
      return s;
    }
  };

  inline std::string text(int i) { return mc::str(i); }
  inline std::string text(std::string const& s) { return s; }
  template <typename T, typename K> std::string text(nbdl::key_impl<T, K> const& k) { return mc::str(k.value); }

  // the connector, as an application would write it
  inline constexpr auto to_map = [](auto&& pairs) { return hana::unpack(static_cast<decltype(pairs)>(pairs), hana::make_map); };
  inline constexpr auto to_basic = [](auto&& pairs) { return hana::unpack(static_cast<decltype(pairs)>(pairs), hana::make_basic_tuple); };
  struct db_insert
  {
    database* d;
    template <typename Name, typename C> std::uint32_t operator()(Name name, C&& columns) const
    {
      d->run(nbdl::sql_db::statement::insert(name, to_map(static_cast<C&&>(columns))));
      return sqlite3_last_insert_rowid(d->db);
    }
  };
  struct db_update
  {
    database* d;
    template <typename Name, typename V, typename K> void operator()(Name name, V&& values, K&& keys) const
    { d->run(nbdl::sql_db::statement::update(name, to_basic(static_cast<V&&>(values)), to_basic(static_cast<K&&>(keys)))); }
  };
  using rows = std::vector<std::map<std::string, std::string>>;
  struct db_select
  {
    database* d;
    template <typename Name, typename Columns, typename Joins, typename K> rows operator()(Name name, Columns columns, Joins joins, K&& keys) const
    {
      rows out;
      auto r = d->run(nbdl::sql_db::statement::select(name, columns, joins, to_map(static_cast<K&&>(keys))));
      if (!r) return out;
      // the columns as nbdl listed them
      std::vector<std::string> names(1);
      std::string list(columns.c_str(), hana::size(columns));
      bool quoted = false;
      for (char c : list) { if (c == '"') quoted = !quoted; if (c == ',' && !quoted) names.emplace_back(); else if (c != '"') names.back() += c; }
      for (auto& x : *r)
      {
        mc::check(x.size() == names.size(), mc::str(x.size(), " columns for ", names.size(), " names"));
        std::map<std::string, std::string> m;
        for (std::size_t i = 0; i < x.size() && i < names.size(); i++) { mc::check(!m.count(names[i]), "column " + names[i] + " twice"); m[names[i]] = x[i]; }
        out.push_back(m);
      }
      return out;
    }
  };

  // the model of insert: children first, then the row, then the rows of its containers
  struct no_keys { };
  inline long new_id(database& d, std::string const& t) { auto& m = d.model[t]; return m.empty() ? 1 : m.rbegin()->first + 1; }
  inline long put(database& d, foo const& x, row r = {}) { r["foo_value"] = text(x.foo_value); long i = new_id(d, "foo"); d.model["foo"][i] = r; return i; }
  inline long put(database& d, tri const& x, row r = {}) { r["a"] = text(x.a); r["b"] = x.b; r["c"] = text(x.c); long i = new_id(d, "tri"); d.model["tri"][i] = r; return i; }
  inline long put(database& d, bar const& x, row r = {}) { r["bar_foo_id"] = mc::str(put(d, x.bar_foo)); r["bar_value"] = x.bar_value; long i = new_id(d, "bar"); d.model["bar"][i] = r; return i; }
  inline long put(database& d, two const& x, row r = {}) { r["left_id"] = mc::str(put(d, x.left)); r["right_id"] = mc::str(put(d, x.right)); r["v"] = text(x.v); long i = new_id(d, "two"); d.model["two"][i] = r; return i; }
  inline long put(database& d, mixed const& x, row r = {}) { r["t_id"] = mc::str(put(d, x.t)); r["b_id"] = mc::str(put(d, x.b)); r["f_id"] = mc::str(put(d, x.f)); r["s"] = x.s; long i = new_id(d, "mixed"); d.model["mixed"][i] = r; return i; }
  inline long put(database& d, deep const& x, row r = {}) { r["d_two_id"] = mc::str(put(d, x.d_two)); r["d_bar_id"] = mc::str(put(d, x.d_bar)); r["s"] = x.s; long i = new_id(d, "deep"); d.model["deep"][i] = r; return i; }
  inline long put(database& d, box const& x, row r = {}) { r["n"] = text(x.n); long i = new_id(d, "box"); d.model["box"][i] = r; for (auto& f : x.foos) put(d, f, {{"box_id", mc::str(i)}}); return i; }
  inline long put(database& d, shelf const& x, row r = {}) { r["s"] = x.s; long i = new_id(d, "shelf"); d.model["shelf"][i] = r; for (auto& b : x.bars) put(d, b, {{"shelf_id", mc::str(i)}}); for (auto& b : x.tris) put(d, b, {{"shelf_id", mc::str(i)}}); return i; }
  inline long put(database& d, house const& x, row r = {}) { r["door_id"] = mc::str(put(d, x.door)); r["no"] = text(x.no); long i = new_id(d, "house"); d.model["house"][i] = r; for (auto& b : x.boxes) put(d, b, {{"house_id", mc::str(i)}}); return i; }

  // the model of select: every value of the entity and of its children, by the names of the members that lead there
  inline void flat(rows::value_type& m, std::string p, foo const& x) { m[p + ".foo_value"] = text(x.foo_value); }
  inline void flat(rows::value_type& m, std::string p, tri const& x) { m[p + ".a"] = text(x.a); m[p + ".b"] = x.b; m[p + ".c"] = text(x.c); }
  inline void flat(rows::value_type& m, std::string p, bar const& x) { m[p + ".bar_value"] = x.bar_value; flat(m, p + ".bar_foo", x.bar_foo); }
  inline void flat(rows::value_type& m, std::string p, two const& x) { m[p + ".v"] = text(x.v); flat(m, p + ".left", x.left); flat(m, p + ".right", x.right); }
  inline void flat(rows::value_type& m, std::string p, mixed const& x) { m[p + ".s"] = x.s; flat(m, p + ".t", x.t); flat(m, p + ".b", x.b); flat(m, p + ".f", x.f); }
  inline void flat(rows::value_type& m, std::string p, deep const& x) { m[p + ".s"] = x.s; flat(m, p + ".d_two", x.d_two); flat(m, p + ".d_bar", x.d_bar); }
  template <typename T> rows::value_type flat(std::string name, T const& x) { rows::value_type m; flat(m, name, x); return m; }
  inline std::string show(rows const& r) { std::string s; for (auto& m : r) { s += "["; for (auto& [k, v] : m) s += k + "=" + v + " "; s += "]"; } return s; }
}
#endif
