// Minimal stand-in for the parts of strtk (https://github.com/ArashPartow/strtk)
// that fstalign uses: split() with a delimiter set, compress_delimiters and
// range_to_type_back_inserter into a container of std::string.
//
// The submodule is empty in this sandbox and strtk is not packaged.  The
// semantics below follow strtk's documented ones: an empty input yields no
// token; a leading delimiter yields a leading empty token; a trailing delimiter
// yields a trailing empty token; with compress_delimiters a run of delimiters
// counts as one.
#ifndef VERIF_STRTK_SHIM_HPP
#define VERIF_STRTK_SHIM_HPP
#include <cstddef>
#include <cstring>
#include <iterator>
#include <string>

namespace strtk {
namespace split_options {
typedef std::size_t type;
const type default_mode = 0;
const type compress_delimiters = 1;
}  // namespace split_options

template <typename Sequence>
class range_to_type_back_inserter_iterator {
 public:
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type;
  typedef void difference_type;
  typedef void pointer;
  typedef void reference;
  explicit range_to_type_back_inserter_iterator(Sequence &s) : seq_(&s) {}
  range_to_type_back_inserter_iterator &operator=(const std::pair<const char *, const char *> &r) {
    seq_->push_back(typename Sequence::value_type(r.first, r.second));
    return *this;
  }
  range_to_type_back_inserter_iterator &operator*() { return *this; }
  range_to_type_back_inserter_iterator &operator++() { return *this; }
  range_to_type_back_inserter_iterator operator++(int) { return *this; }

 private:
  Sequence *seq_;
};

template <typename Sequence>
inline range_to_type_back_inserter_iterator<Sequence> range_to_type_back_inserter(Sequence &s) {
  return range_to_type_back_inserter_iterator<Sequence>(s);
}

template <typename OutputIterator>
inline std::size_t split(const char *delimiters, const std::string &str, OutputIterator out,
                         const split_options::type &opt = split_options::default_mode) {
  const char *first = str.data();
  const char *last = str.data() + str.size();
  const std::size_t nd = std::strlen(delimiters);
  auto is_delim = [&](char c) { return nd != 0 && std::memchr(delimiters, c, nd) != nullptr; };
  if (first == last) return 0;
  const bool compress = (opt & split_options::compress_delimiters) != 0;
  std::size_t count = 0;
  const char *itr = first;
  while (itr != last) {
    if (is_delim(*itr)) {
      *out = std::pair<const char *, const char *>(first, itr);
      ++out;
      ++count;
      if (compress) {
        while (++itr != last && is_delim(*itr)) {
        }
      } else {
        ++itr;
      }
      first = itr;
    } else {
      ++itr;
    }
  }
  if (first != itr || is_delim(*(itr - 1))) {
    *out = std::pair<const char *, const char *>(first, itr);
    ++out;
    ++count;
  }
  return count;
}

template <typename OutputIterator>
inline std::size_t split(const std::string &delimiters, const std::string &str, OutputIterator out,
                         const split_options::type &opt = split_options::default_mode) {
  return split(delimiters.c_str(), str, out, opt);
}
}  // namespace strtk
#endif
