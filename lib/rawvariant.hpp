// The std::variant that is the one member of a variant, whatever its name is.
#ifndef VERIF_RAWVARIANT_HPP
#define VERIF_RAWVARIANT_HPP
template <typename V> auto& raw_variant(V& v) { auto& [x] = v; return x; }
#endif
