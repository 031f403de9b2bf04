// mc-flags: -lsqlite3
// every history of inserts, updates and selects, executed by a real database
#include "db.hpp"
using namespace my;
namespace sql = nbdl::sql_db;

namespace
{
  // every value is a different one, so that none can stand in for another
  int& count() { static int n = 0; return n; }
  int i() { return 100 + count()++; }
  std::string s()
  {
    auto n = mc::str(count()++);
    switch (mc::choose(mc::tier(2, 4)))
    {
    case 0: return n;
    case 1: return n + " \"q\" '; DROP TABLE foo;-- a text that does not fit into the string object";
    case 2: return "";
    default: return "?" + n;
    }
  }

  template <typename T> struct made { T value; long id; };
  template <typename T> void select_all(database& d, std::string name, std::vector<made<T>> const& all)
  {
    for (long id = 1; id <= long(all.size()) + 1 && !mc::failed(); id++)
    {
      rows got = sql::select<T>(db_select{&d}, hana::make_basic_tuple(hana::make_pair(sql::select_primary_key_name<T>{}, sql::primary_key<T>{id})));
      rows want;
      for (auto& m : all) if (m.id == id) want.push_back(flat(name, m.value));
      mc::check(got == want, mc::str("select of ", name, " ", id, " gives ", show(got), " instead of ", show(want)));
      d.compare("select");
    }
  }
  template <typename T> void insert_one(database& d, std::string name, T const& x, std::vector<made<T>>& all, bool moved)
  {
    long want = put(d, x);
    long id;
    if (moved) { T y = x; id = sql::insert(db_insert{&d}, std::move(y)).value; }
    else { T y = x; id = sql::insert(db_insert{&d}, y).value; mc::check(hana::equal(x, y), "insert changed its argument"); }
    mc::check(id == want, mc::str("the key of the new ", name, " is ", id, " instead of ", want));
    all.push_back({x, id});
    d.compare("insert of " + name);
  }
}

// rows of flat tables: inserted, updated one by one, selected
SCENARIO(flat_rows)
{
  database d; count() = 0;
  std::vector<made<tri>> all;
  int n = mc::tier(3, 4);
  for (int k = 0; k < n && !mc::failed(); k++)
  {
    if (k == 0 || mc::flip())
    {
      tri x{i(), s(), k == 0 ? 3 : i()};
      insert_one(d, "tri", x, all, mc::flip());
    }
    else
    {
      long id = 1 + mc::choose(int(all.size()) + 1);      // one of them is not there
      tri x{7, s(), 8};
      sql::update(db_update{&d}, x, hana::make_basic_tuple(hana::make_pair(sql::table_key_name<tri>{}, sql::primary_key<tri>{id})));
      if (id <= long(all.size())) { all[id - 1].value = x; auto& r = d.model["tri"][id]; r["a"] = "7"; r["b"] = x.b; r["c"] = "8"; }
      d.compare("update");
    }
    select_all(d, "tri", all);
  }
}

// more than one key: all of them must be right
SCENARIO(several_keys)
{
  database d; count() = 0;
  std::vector<made<tri>> all;
  std::vector<std::pair<std::string, int>> owner;
  int n = 2 + mc::choose(2);
  for (int k = 0; k < n; k++)
  {
    tri x{k, "b", k};
    std::string o = mc::flip() ? "ann" : "bob"; int no = mc::choose(2);
    owner.push_back({o, no});
    put(d, x, {{"owner", o}, {"owner_no", text(no)}});
    auto id = sql::insert(db_insert{&d}, x, hana::make_tuple(hana::make_pair("owner"_s, o), hana::make_pair("owner_no"_s, no)));
    mc::check(id.value == k + 1, "key");
    all.push_back({x, k + 1});
    d.compare("insert with keys");
  }
  long id = 1 + mc::choose(n);
  std::string o = mc::flip() ? "ann" : "bob"; int no = mc::choose(2);
  int keys = 2 + mc::choose(2);
  auto hits = [&](int k) { return owner[k].first == o && (keys == 2 || owner[k].second == no); };
  auto& r = d.model["tri"][id];
  tri x{77, "new", 88};
  switch (mc::choose(2))
  {
  case 0:
    if (keys == 2)
      sql::update(db_update{&d}, x, hana::make_basic_tuple(hana::make_pair(sql::table_key_name<tri>{}, sql::primary_key<tri>{id}), hana::make_pair("owner"_s, o)));
    else
      sql::update(db_update{&d}, x, hana::make_basic_tuple(hana::make_pair("owner_no"_s, no), hana::make_pair(sql::table_key_name<tri>{}, sql::primary_key<tri>{id}), hana::make_pair("owner"_s, o)));
    if (hits(id - 1)) { r["a"] = "77"; r["b"] = "new"; r["c"] = "88"; }
    d.compare("update with keys");
    break;
  case 1:
    rows got, want;
    if (keys == 2)
      got = sql::select<tri>(db_select{&d}, hana::make_basic_tuple(hana::make_pair(sql::select_primary_key_name<tri>{}, sql::primary_key<tri>{id}), hana::make_pair("\"tri\".\"owner\""_s, o)));
    else
      got = sql::select<tri>(db_select{&d}, hana::make_basic_tuple(hana::make_pair("\"tri\".\"owner_no\""_s, no), hana::make_pair("\"tri\".\"owner\""_s, o), hana::make_pair(sql::select_primary_key_name<tri>{}, sql::primary_key<tri>{id})));
    if (hits(id - 1)) want.push_back(flat("tri", all[id - 1].value));
    mc::check(got == want, mc::str("select by several keys gives ", show(got), " instead of ", show(want)));
    break;
  }
}

// entities within entities, several of them, in any order of the members
template <typename T> void nested_rows(std::string name, T (*make)())
{
  database d; count() = 0;
  std::vector<made<T>> all;
  // rows of the inner tables that belong to nobody
  int before = mc::choose(2);
  for (int k = 0; k < before; k++) { put(d, foo{50}); sql::insert(db_insert{&d}, foo{50}); put(d, tri{5, "nobody", 1}); sql::insert(db_insert{&d}, tri{5, "nobody", 1}); }
  int n = 1 + mc::choose(2);
  for (int k = 0; k < n && !mc::failed(); k++)
  {
    insert_one(d, name, make(), all, mc::flip());
    select_all(d, name, all);
  }
}
SCENARIO(one_child)      { nested_rows<bar>("bar", [] { return bar{s(), {i()}}; }); }
SCENARIO(two_children)   { nested_rows<two>("two", [] { return two{{i()}, i(), {i()}}; }); }
SCENARIO(mixed_children) { nested_rows<mixed>("mixed", [] { return mixed{{i(), "b", 3}, {s(), {i()}}, s(), {4}}; }); }
SCENARIO(deep_children)  { nested_rows<deep>("deep", [] { return deep{{{i()}, 5, {i()}}, s(), {"v", {i()}}}; }); }

// selected by the key of an entity within
namespace
{
  template <typename T, typename E, typename M1, typename ...M> void by_inner_key(std::string name, std::string table, T (*make)(), std::vector<std::string> path)
  {
    database d; count() = 0;
    std::vector<made<T>> all;
    put(d, foo{50}); sql::insert(db_insert{&d}, foo{50});
    int n = 1 + mc::choose(3);
    for (int k = 0; k < n && !mc::failed(); k++) insert_one(d, name, make(), all, false);
    for (auto& [id, r] : std::map<long, row>(d.model[table]))
    {
      rows got = sql::select<T>(db_select{&d}, hana::make_basic_tuple(hana::make_pair(sql::select_nested_key_name<T, M1, M...>{}, sql::primary_key<E>{id})));
      rows want;
      for (auto& m : all)
      {
        // which row is it that the members lead to
        std::string at = mc::str(m.id), t = name;
        for (std::size_t i = 0; i < path.size(); i += 2) { at = d.model[t][std::stol(at)][path[i] + "_id"]; t = path[i + 1]; }
        if (at == mc::str(id)) want.push_back(flat(name, m.value));
      }
      mc::check(got == want, mc::str("select of ", name, " by the key ", id, " of its ", table, " gives ", show(got), " instead of ", show(want)));
    }
    d.compare("select");
  }
}
SCENARIO(inner_keys)
{
  switch (mc::choose(5))
  {
  case 0: by_inner_key<bar, foo, NBDL_MEMBER(&bar::bar_foo)>("bar", "foo", [] { return bar{s(), {i()}}; }, {"bar_foo", "foo"}); break;
  case 1: by_inner_key<two, foo, NBDL_MEMBER(&two::left)>("two", "foo", [] { return two{{i()}, i(), {i()}}; }, {"left", "foo"}); break;
  case 2: by_inner_key<two, foo, NBDL_MEMBER(&two::right)>("two", "foo", [] { return two{{i()}, i(), {i()}}; }, {"right", "foo"}); break;
  case 3: by_inner_key<deep, foo, NBDL_MEMBER(&deep::d_two), NBDL_MEMBER(&two::right)>("deep", "foo", [] { return deep{{{i()}, 5, {i()}}, "s", {"v", {i()}}}; }, {"d_two", "two", "right", "foo"}); break;
  case 4: by_inner_key<mixed, bar, NBDL_MEMBER(&mixed::b)>("mixed", "bar", [] { return mixed{{i(), "b", 3}, {"x", {i()}}, "y", {4}}; }, {"b", "bar"}); break;
  }
}

// entities with containers: one row for each element, with the key of the owner
SCENARIO(containers)
{
  database d; count() = 0;
  int n = 1 + mc::choose(2);
  for (int k = 0; k < n && !mc::failed(); k++)
  {
    bool moved = mc::flip();
    auto go = [&](auto const& x, char const* name)
    {
      long want = put(d, x); long id;
      auto y = x;
      if (moved) id = sql::insert(db_insert{&d}, std::move(y)).value; else id = sql::insert(db_insert{&d}, y).value;
      mc::check(id == want, mc::str("the key of the new ", name, " is ", id, " instead of ", want));
      d.compare(name);
    };
    auto boxed = [&] { box b{i(), {}}; int m = mc::choose(3); for (int j = 0; j < m; j++) b.foos.push_back({10 + j}); return b; };
    switch (mc::choose(3))
    {
    case 0: go(boxed(), "box"); break;
    case 1:
    {
      shelf x{{}, s(), {}};
      int m = mc::choose(3), l = mc::choose(3);
      for (int j = 0; j < m; j++) x.bars.push_back({mc::str("b", j), {20 + j}});
      for (int j = 0; j < l; j++) x.tris.push_back({j, "t", j});
      go(x, "shelf");
      break;
    }
    case 2:
    {
      house x{{i()}, {}, 9};
      int m = mc::choose(3);
      for (int j = 0; j < m; j++) x.boxes.push_back(boxed());
      go(x, "house");
      break;
    }
    }
  }
}

// a container of entities for an owner that is given
SCENARIO(containers_with_keys)
{
  database d; count() = 0;
  int n = mc::choose(4);
  std::string owner = mc::flip() ? "ann" : "an owner whose name does not fit into the string object";
  int no = i();
  bool moved = mc::flip();
  auto go = [&](auto c, char const* what)
  {
    for (auto& x : c) put(d, x, {{"owner", owner}, {"owner_no", text(no)}});
    auto keys = hana::make_tuple(hana::make_pair("owner"_s, owner), hana::make_pair("owner_no"_s, no));
    if (moved) sql::insert(db_insert{&d}, std::move(c), std::move(keys)); else sql::insert(db_insert{&d}, c, keys);
    d.compare(what);
  };
  switch (mc::choose(3))
  {
  case 0: { std::vector<foo> c; for (int j = 0; j < n; j++) c.push_back({j}); go(c, "vector"); break; }
  case 1: { std::list<bar> c; for (int j = 0; j < n; j++) c.push_back({mc::str(j), {j}}); go(c, "list"); break; }
  case 2: { std::vector<two> c; for (int j = 0; j < n; j++) c.push_back({{j}, j, {-j}}); go(c, "vector of two"); break; }
  }
}

// tables and containers of many rows, texts of any length
SCENARIO(many_rows)
{
  database d; count() = 0;
  int what = mc::choose(5), n = mc::pick(std::vector<int>{9, 10, 11, 100, 101, 110, 127, 128, 129, 255, 256, 257});
  if (what < 2 && n % 10) { if (mc::thorough()) n /= 2; else return; }
  int len = mc::pick(std::vector<int>{1, 15, 16, 255, 256, 4096, 65536});
  if (what != 0 && len > 1) return;
  auto t = [&](int k) { std::string x = mc::str(k, "'"); while (int(x.size()) < len) x += char('a' + k % 26); return x; };
  auto go = [&](auto const& x, char const* name)
  {
    long want = put(d, x);
    auto y = x;
    long id = sql::insert(db_insert{&d}, y).value;
    mc::check(id == want, mc::str("the key of the new ", name, " is ", id, " instead of ", want));
    d.compare(name);
  };
  switch (what)
  {
  case 0:
  {
    n /= 2;
    std::vector<made<tri>> all;
    for (int k = 0; k < n && !mc::failed(); k++) { tri x{k, t(k), -k}; long id = put(d, x); mc::check(sql::insert(db_insert{&d}, x).value == id, "key"); all.push_back({x, id}); }
    d.compare("many inserts");
    for (int k = 0; k < n && !mc::failed(); k += 7)
    {
      all[k].value.b = t(k + 1); auto& x = all[k].value;
      sql::update(db_update{&d}, x, hana::make_basic_tuple(hana::make_pair(sql::table_key_name<tri>{}, sql::primary_key<tri>{k + 1})));
      d.model["tri"][k + 1]["b"] = x.b;
    }
    d.compare("many updates");
    return select_all(d, "tri", all);
  }
  case 1:
  {
    std::vector<made<deep>> all;
    for (int k = 0; k < n / 4 && !mc::failed(); k++) insert_one(d, "deep", deep{{{k}, k + 1, {k + 2}}, t(k), {"v", {k + 3}}}, all, k % 2);
    return select_all(d, "deep", all);
  }
  case 2: { box b{1, {}}; for (int k = 0; k < n; k++) b.foos.push_back({k}); go(b, "box"); return go(b, "box again"); }
  case 3: { shelf x{{}, "s", {}}; for (int k = 0; k < n; k++) { x.bars.push_back({t(k), {k}}); x.tris.push_back({k, t(k), 0}); } return go(x, "shelf"); }
  case 4: { house x{{1}, {}, 2}; for (int k = 0; k < n / 8; k++) { box b{k, {}}; for (int j = 0; j < k % 9; j++) b.foos.push_back({100 * k + j}); x.boxes.push_back(b); } return go(x, "house"); }
  }
}
