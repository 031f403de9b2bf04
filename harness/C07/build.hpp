// Contexts made from definitions: their actors, and where each message goes.
#ifndef C07_BUILD_HPP
#define C07_BUILD_HPP
#include "trees.hpp"
namespace my
{
  inline std::string id(actor_info const& a) { return mc::str(a.kind, ".", a.i); }
  // what has to happen when a message is sent
  inline std::vector<std::string> wanted(model const& m, std::string const& t, std::string const& path, bool up, bool is_read, bool plain_path)
  {
    std::vector<std::string> w;
    point const* q = m.at(path);
    auto to_state = [&](std::string const& x) { for (auto& a : m.actors) if (a.kind >= 2) w.push_back(id(a) + " changed " + x); };
    if (plain_path)
    {
      if (q->store && q->store != 9)
      {
        w.push_back(mc::str("store", q->store, " ", path, "e", q->path.back(), " ", t));
        if (!(up && is_read)) to_state(path);
      }
      for (auto& l : m.points)
        for (auto& h : l.hears)
          if (h == path && l.store && l.store != 9)
          { w.push_back(mc::str("foreign", l.store, " ", path_text(l.path), " ", t)); to_state(path_text(l.path)); }
    }
    if (up) w.push_back(id(m.actors[q->producer]) + " " + t);
    else for (auto& a : m.actors) if (a.kind == 1 || a.kind == 3) w.push_back(id(a) + " " + t);
    return w;
  }
  template <typename K, typename P> std::string completed(message::create_path<K, P> const& x)
  { std::string r = show(x.parent_path); r.pop_back(); return r + show(K{}) + " )"; }
  template <typename M> std::vector<std::string> wanted_of(model const& m, M const& x)
  {
    constexpr bool up = message::is_upstream<M>;
    constexpr bool plain = !(up && message::is_create<M>) || message::is_path_normalizable<M>;
    std::string path;
    if constexpr (plain) path = show(message::get_path(x));
    else { path = completed(message::get_path(x)); }
    return wanted(m, text(x), path, up, message::is_read<M>, plain);
  }
  inline void same(std::vector<std::string> want, std::string const& what)
  {
    auto got = log();
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    mc::step();
    if (got != want) mc::fail(what + ": " + lines(got) + " instead of " + lines(want));
  }

  template <typename S, typename C, typename ...Args> void check(C c, Args const& ...arg_texts)
  {
    model m = meaning(S{});
    std::vector<std::string> args{std::string(arg_texts)...}, want;
    int n = int(m.actors.size());
    int inits = 0, last_producer = -1, first_consumer = 1 << 20, last_made = -1, first_init = 1 << 20;
    for (int k = 0; k < int(log().size()); k++)
    {
      auto& l = log()[k];
      if (l.starts_with("made")) last_made = k;
      if (l.starts_with("init"))
      {
        inits++;
        first_init = std::min(first_init, k);
        if (l[5] == '0') last_producer = k; else first_consumer = std::min(first_consumer, k);
      }
    }
    mc::check(last_made < first_init, "an actor was made when another was initialised already: " + lines(log()));
    mc::check(last_producer < first_consumer, "a consumer was initialised before a producer: " + lines(log()));
    for (int k = 0; k < n; k++)
    {
      want.push_back(mc::str("made ", id(m.actors[k]), " of ", args[k]));
      if (m.actors[k].kind != 2) want.push_back("init " + id(m.actors[k]));
      if (m.actors[k].kind != 2 && std::pair(m.actors[k].kind, m.actors[k].i) == greeter)
      {
        using M = message_of<S, false, 1>;
        if constexpr (!std::is_void_v<M>) { auto w = wanted_of(m, M{}); want.insert(want.end(), w.begin(), w.end()); }
      }
    }
    same(want, "making the context");
    mc::check(living == n, mc::str(living, " actors live instead of ", n));
    mc::state(lines(log()));
    // each at its place
    mp11::mp_for_each<mp11::mp_iota_c<mp11::mp_size<typename nbdl_def::builder::make_context_meta_t<S>::actor_names>::value>>([&](auto i)
    {
      constexpr std::size_t k = decltype(i)::value;
      mc::check(int(k) < n && c->template actor<k>().got == args[k], "actor() gives another actor");
    });
    c.reset();
    mc::check(living == 0, "an actor outlives the context");
  }
  template <std::size_t> using nothing_text = char const*;
  template <typename S, std::size_t ...k> void make_default(std::index_sequence<k...>)
  { log().clear(); check<S>(nbdl::make_unique_context<S>(), nothing_text<k>("nothing")...); }
  template <typename S, std::size_t ...k> void make_positional(std::index_sequence<k...>)
  {
    log().clear();
    if (mc::flip()) check<S>(nbdl::make_unique_context<S>(own_arg<k>{int(k) + 100}...), mc::str(k + 100)...);
    else
    {
      hana::tuple<own_arg<k>...> lvalues{own_arg<k>{int(k) + 100}...};
      hana::unpack(lvalues, [&](auto& ...x) { check<S>(nbdl::make_unique_context<S>(x...), mc::str(k + 100)...); });
    }
  }
  template <typename Prods> struct names_of;
  template <bool n, int i, typename G> auto name_of(prod<n, i, G>) { if constexpr (n) return hana::type_c<name_t<i>>; else return hana::type_c<actor_tag<0, i>>; }
  template <bool n, int kind, int i> auto name_of(cons<n, kind, i>) { if constexpr (n) return hana::type_c<name_t<i>>; else return hana::type_c<actor_tag<kind, i>>; }
  template <int k, int pf, typename ...P, int cf, typename ...C, bool rev> auto name_at(shape<pf, pack<P...>, cf, pack<C...>, rev>)
  { return name_of(mp11::mp_at_c<pack<P..., C...>, k>{}); }
  // k... is the order in which they are given
  template <typename S, int n, std::size_t ...k> void make_named(std::index_sequence<k...>)
  {
    log().clear();
    auto c = nbdl::make_context<S>(nbdl::actor(name_at<k>(S{}), own_arg<k>{int(k) + 100})...);
    [&]<std::size_t ...j>(std::index_sequence<j...>)
    {
      auto t = [](std::size_t x) { bool given = ((x == k) || ... || false); return given ? mc::str(x + 100) : std::string("nothing"); };
      check<S>(std::move(c), t(j)...);
    }(std::make_index_sequence<n>{});
  }
  template <typename S, int n, int way> void make_named_ways()
  {
    // way: which are given (bits), and in which of three orders
    constexpr int given = way / 3, order = way % 3;
    constexpr auto ks = []
    {
      struct { std::size_t v[8] = {}; int size = 0; } r;
      for (int j = 0; j < n; j++)
      {
        int k = order == 0 ? j : order == 1 ? n - 1 - j : (j + 1) % n;
        if (given >> k & 1) r.v[r.size++] = k;
      }
      return r;
    }();
    [&]<std::size_t ...j>(std::index_sequence<j...>) { make_named<S, n>(std::index_sequence<ks.v[j]...>{}); }(std::make_index_sequence<ks.size>{});
  }
  template <typename S> void construct()
  {
    model m = meaning(S{});
    constexpr int n = int(mp11::mp_size<typename nbdl_def::builder::make_context_meta_t<S>::actor_names>::value);
    if (!mc::check(n == int(m.actors.size()), "another number of actors")) return;
    living = 0;
    greeter = {-1, -1};
    int g = mc::choose(n + 1);
    if (g) greeter = {m.actors[g - 1].kind, m.actors[g - 1].i};
    constexpr bool all_ways = n <= 3;
    constexpr int ways = all_ways ? 3 << n : 6;
    int way = mc::choose(2 + ways);
    if (way == 0) make_default<S>(std::make_index_sequence<n>{});
    else if (way == 1) make_positional<S>(std::make_index_sequence<n>{});
    else [&]<int ...w>(std::integer_sequence<int, w...>)
    {
      using f = void (*)();
      f const all[] = {&make_named_ways<S, n, all_ways ? w : w < 3 ? 3 * ((1 << n) - 1) + w : 3 * (0x55 & ((1 << n) - 1)) + w - 3>...};
      all[way - 2]();
    }(std::make_integer_sequence<int, ways>{});
    if (way == 1 || way == 0) mc::note(mc::str("way ", way, " greeter ", g));
  }
  template <typename ...S> void constructs(pack<S...>)
  {
    using f = void (*)();
    f const all[] = {&construct<S>...};
    all[mc::choose(int(sizeof...(S)))]();
  }

  // which paths have a store to read from
  template <int St> constexpr bool has_store() { return St != 0 && St != 9; }
  template <typename Path> struct stored_at
  {
    template <int ...at, int K, typename A, int St, typename H, typename ...G>
    static constexpr bool in(p<at...>, ap<K, A, St, H, G...>)
    { return (std::is_same_v<hana::tuple<key<at>..., key<K>>, Path> && has_store<St>()) || (groups(p<at..., K>{}, G{}) || ... || false); }
    template <int ...at, typename Kid> static constexpr bool groups(p<at...> a, one<Kid>) { return in(a, Kid{}); }
    template <int ...at, typename ...Kids> static constexpr bool groups(p<at...> a, many<Kids...>) { return (in(a, Kids{}) || ... || false); }
    template <int ...at> static constexpr bool groups(p<at...> a, unsaid) { return false; }
    template <bool n, int i, typename G> static constexpr bool prod_(prod<n, i, G>) { return groups(p<>{}, G{}); }
    template <int pf, typename ...P, int cf, typename C, bool rev> static constexpr bool all(shape<pf, pack<P...>, cf, C, rev>) { return (prod_(P{}) || ... || false); }
  };
  template <typename S, typename M> constexpr bool readable() { return stored_at<std::decay_t<decltype(message::get_path(std::declval<M>()))>>::all(S{}); }
  template <typename S, bool up> void send(int which, int from)
  {
    model m = meaning(S{});
    auto c = nbdl::make_unique_context<S>();
    using V = std::conditional_t<up, typename nbdl::message_api<S>::upstream_variant, typename nbdl::message_api<S>::downstream_variant>;
    auto one = [&](auto t)
    {
      using M = typename decltype(t)::type;
      if constexpr (!std::is_same_v<M, nbdl::system_message>)
      {
        M x{};
        auto go = [&](auto& actor)
        {
          log().clear();
          nbdl::apply_message(actor.context, x);
          mc::note(text(x));
          same(wanted_of(m, x), "sending " + text(x));
          mc::state(text(x) + lines(log()));
        };
        constexpr std::size_t n = mp11::mp_size<typename nbdl_def::builder::make_context_meta_t<S>::actor_names>::value;
        // a read of a null_store cannot be answered (it does not compile)
        constexpr bool unreadable = up && message::is_read<M> && !readable<S, M>();
        if constexpr (!unreadable) { if (from == 0) go(c->template actor<0>()); else go(c->template actor<n - 1>()); }
      }
    };
    auto each = [&]<typename ...T>(nbdl::variant<T...> const*) { int i = 0; ((i++ == which ? one(hana::type_c<T>) : void()), ...); };
    each(static_cast<V*>(nullptr));
  }
  template <typename S> void route()
  {
    model m = meaning(S{});
    greeter = {-1, -1};
    living = 0;
    bool up = mc::flip();
    int n = int((up ? m.up : m.down).size());
    if (n == 0) return;
    int which = 1 + mc::choose(n), from = mc::choose(2);
    if (up) send<S, true>(which, from); else send<S, false>(which, from);
  }
  template <typename ...S> void routes(pack<S...>)
  {
    using f = void (*)();
    f const all[] = {&route<S>...};
    all[mc::choose(int(sizeof...(S)))]();
  }
}
#endif
