// mc-flags: -O1
// The tiles game of the examples: every reachable board, every shape of board and
// every sequence of moves sent through a context, compared with the rules
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl.hpp>
#include <../example/tiles/game.hpp>
#include <set>
#include <unordered_set>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace
{
  using board = std::array<unsigned char, 64>;
  std::string show(int w, int h, board const& b)
  {
    std::string r;
    for (int i = 0; i < w * h; i++) r += mc::str(i && i % w == 0 ? "/" : i ? " " : "", int(b[i]));
    for (int i = w * h; i < 64; i++) if (b[i]) return r + mc::str(" and ", int(b[i]), " off the board at ", i);
    return r;
  }
  // the rules: a tile moves to the empty space (0) next to it
  bool rule(int w, int h, board& b, long i)
  {
    if (i < 0 || i >= w * h || b[i] == 0) return false;
    long x = i % w, y = i / w;
    long const dx[] = {-1, 1, 0, 0}, dy[] = {0, 0, -1, 1};
    for (int d = 0; d < 4; d++)
    {
      long x2 = x + dx[d], y2 = y + dy[d];
      if (x2 < 0 || y2 < 0 || x2 >= w || y2 >= h) continue;
      if (b[y2 * w + x2] == 0) { std::swap(b[i], b[y2 * w + x2]); return true; }
    }
    return false;
  }
  struct any_move { int index; };

  // A finding that is recorded, not repaired (known_findings.txt): the tile in the lower left
  // corner, with no space next to it, takes the place behind the last row for one.
  char const* const corner_key = "lower-left-leaves-the-board";
  bool leaves(int w, int h, board const& old, board now, bool result, long i)
  {
    board b = old;
    if (w < 1 || h < 1 || w * h >= 64 || i != w * h - w || old[w * h] || rule(w, h, b, i)) return false;
    std::swap(b[i], b[w * h]);
    return result && now == b && old[i];
  }
  void the_finding() { mc::fail("the tile in the lower left corner moves to the place behind the last row", corner_key); }

  // on the heap and of the exact size, so that memory behind it is never touched unseen
  struct small_board
  {
    std::vector<unsigned char> v;
    unsigned char behind = 0; bool end_is_there = false;
    unsigned char& operator[](std::size_t i) { return at(i); }
    unsigned char const& operator[](std::size_t i) const { return const_cast<small_board*>(this)->at(i); }
    unsigned char& at(std::size_t i)
    {
      static unsigned char off; off = 0;
      if (i < v.size()) return v[i];
      if (i == v.size() && end_is_there) return behind;
      mc::fail(mc::str("element ", i, " of a board of ", v.size(), " is used"));
      return off;
    }
  };
  struct small_game { int width; int height; small_board board; };
}

// every state that can be reached from the first one, and every move in it
SCENARIO(reachable)
{
  tiles::game_store_impl<tiles::game_path> first;
  std::vector<board> todo{first.game_.board};
  auto code = [](board const& b) { unsigned long long r = 0; for (int i = 0; i < 9; i++) r = r * 9 + b[i]; return r; };
  std::unordered_set<unsigned long long> known{code(first.game_.board)};
  board all = first.game_.board; std::sort(all.begin(), all.begin() + 9);
  for (int i = 0; i < 9; i++) if (!mc::check(all[i] == i, "the first board is no permutation: " + show(3, 3, first.game_.board))) return;
  std::vector<int> moves;
  if (mc::thorough()) for (int i = 0; i < 256; i++) moves.push_back(i);
  else moves = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 63, 64, 127, 128, 255};
  bool left = false;
  while (todo.size())
  {
    board b = todo.back(); todo.pop_back();
    for (int m : moves)
    {
      tiles::game_store_impl<tiles::game_path> store;
      store.game_.board = b;
      board want = b;
      bool changed = rule(3, 3, want, m);
      bool r = store.apply_move(hana::make_tuple(0), tiles::game_move{(unsigned char) m});
      mc::step(); mc::eval();
      if (leaves(3, 3, b, store.game_.board, r, m)) { left = true; continue; }
      if (store.game_.board != want || r != changed || store.game_.width != 3 || store.game_.height != 3)
      {
        mc::fail(mc::str("move ", m, " on ", show(3, 3, b), " gives ", show(3, 3, store.game_.board), " (", r, ") instead of ", show(3, 3, want), " (", changed, ")"));
        return;
      }
      if (changed && known.insert(code(want)).second) todo.push_back(want);
    }
  }
  mc::check(known.size() == 181440, mc::str(known.size(), " boards are reachable instead of half of the permutations"));
  for (auto k : known) mc::state(std::to_string(k));
  if (left && !mc::failed()) the_finding();
}

// every shape of board, every place of the empty space (or none), every tile
SCENARIO(shapes)
{
  int w = mc::choose(65);
  bool left = false;
  for (int h = 0; w * h <= 64 && h <= 64; h++)
  for (int empty = -1; empty < w * h; empty++)
  for (int index = -2; index < (w * h < 20 ? 70 : w * h + 3); index++)
  {
    tiles::game g{w, h, {}};
    small_game s{w, h, {}};
    for (int i = 0, n = 0; i < w * h; i++) s.board.v.push_back(g.board[i] = i == empty ? 0 : 100 + n++);
    board b = g.board, want = b;
    bool changed = rule(w, h, want, index);
    // (only for the finding there is one more place)
    s.board.end_is_there = index == w * h - w && !changed && w > 0;
    bool rs = tiles::detail::apply_game_move(s, any_move{index});
    board small{}; std::copy(s.board.v.begin(), s.board.v.end(), small.begin());
    if (mc::failed()) return;
    auto what = [&](board const& now, bool r)
    { return mc::str("move ", index, " on ", w, "x", h, " ", show(w, h, b), " gives ", show(w, h, now), " (", r, ") instead of ", show(w, h, want), " (", changed, ")"); };
    bool gone = false;
    if (s.board.behind)
    {
      board back = small; back[index] = s.board.behind;
      gone = rs && small[index] == 0 && back == b;
      if (!gone) { mc::fail(what(small, rs) + mc::str(" and ", int(s.board.behind), " behind the last row")); return; }
    }
    if (gone) { left = true; if (w * h == 64) continue; }
    else if (rs != changed || small != want) { mc::fail(what(small, rs)); return; }
    if (index >= 0 && index < 256)
    {
      bool r = tiles::detail::apply_game_move(g, tiles::game_move{(unsigned char) index});
      if (leaves(w, h, b, g.board, r, index)) { left = true; continue; }
      if (r != changed || g.board != want || g.width != w || g.height != h) { mc::fail(what(g.board, r)); return; }
    }
    mc::step(); mc::eval();
    if (index == 0) mc::state(mc::str(w, "x", h, ",", empty));
  }
  if (left) the_finding();
}

// moves through a context
namespace
{
  struct told { int calls = 0; std::vector<std::string> paths; };
  told& log() { static told t; return t; }
  struct listener { };
  template <typename Context> struct listener_impl
  {
    using hana_tag = listener;
    Context context;
    template <typename T> listener_impl(nbdl::actor_initializer<Context, T>&& a) : context(a.context) { }
  };
  struct definition { static auto make_def() { return tiles::context<nbdl::echo_producer, listener>::make_def(); } };
}
namespace nbdl
{
  template <typename Context> struct actor_type<listener, Context> { using type = listener_impl<Context>; };
  template <> struct notify_state_change_impl<listener>
  {
    template <typename C, typename Path> static void apply(C&, Path const& p)
    {
      log().calls++;
      if constexpr (std::is_same_v<std::decay_t<Path>, tiles::game_path>) log().paths.push_back(mc::str(hana::at_c<0>(p)));
      else log().paths.push_back("another path");
    }
  };
}
SCENARIO(through_a_context)
{
  auto c = nbdl::make_context<definition>(nbdl::actor(BOOST_HANA_STRING("producer"), nbdl::echo_producer{}));
  auto& state = c->template actor<1>();
  board want = tiles::game_store_impl<tiles::game_path>().game_.board, before = want;
  bool gone = false, rule_changed = true; int last = -1;
  auto compare = [&](int path)
  {
    bool seen = false;
    nbdl::match(state.context, hana::make_tuple(path), [&](auto const& g)
    {
      if constexpr (std::is_same_v<std::decay_t<decltype(g)>, tiles::game>)
      {
        seen = true;
        if (g.board != want && leaves(3, 3, before, g.board, !rule_changed, last)) { gone = true; return; }
        mc::check(g.width == 3 && g.height == 3 && g.board == want, "the game is " + show(3, 3, g.board) + " instead of " + show(3, 3, want));
      }
    });
    mc::check(seen, "the context has no game");
  };
  compare(0);
  int n = mc::tier(4, 5);
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    int move = mc::choose(10);
    log() = {};
    before = want; last = move;
    bool changed = rule_changed = rule(3, 3, want, move);
    int path = 0;
    switch (i % 3)
    {
      case 0: tiles::create_game_move(state, (unsigned char) move); break;
      case 1:       // with a uid, of another path
        path = 7;
        nbdl::apply_message(state.context, message::make_upstream_create(message::make_create_path<int>(hana::make_tuple(7)), nbdl::uid{}, tiles::game_move{(unsigned char) move}));
        break;
      case 2:       // of another player
        path = 3;
        nbdl::apply_message(state.context, message::make_downstream_create(hana::make_tuple(3, 12), message::no_uid, tiles::game_move{(unsigned char) move}, message::no_is_confirmed));
        break;
    }
    compare(0); compare(path);
    if (gone && !mc::failed()) { the_finding(); return; }
    mc::check(std::count(log().paths.begin(), log().paths.end(), mc::str(path)) == changed,
      mc::str("a move that ", changed ? "changes" : "does not change", " the game: the listener is told ", log().calls, " times"));
    mc::step(); mc::eval();
    mc::state(show(3, 3, want));
  }
}
