// Model of the console table: what a logger has to print, as visible characters with their colours.
#pragma once
#include <fmt/color.h>
#include <fmt/format.h>
#include "altro/common/solver_logger.hpp"
#include "capture.hpp"
#include "gen.hpp"
namespace table {
using altro::LogLevel;
// A printed text with one colour per character; the escape sequences themselves are not compared.
struct Text {
  std::string s;
  std::vector<uint32_t> col;  // 24-bit colour, kNoColour if none is set
  static constexpr uint32_t kNoColour = 0xffffffff, kAnyColour = 0xfffffffe;
  void put(const std::string& t, uint32_t c) {
    s += t;
    col.insert(col.end(), t.size(), c);
  }
};
inline Text parse(const std::string& raw) {
  Text t;
  uint32_t cur = Text::kNoColour;
  for (size_t i = 0; i < raw.size(); ++i) {
    if (raw[i] == '\x1b' && i + 1 < raw.size() && raw[i + 1] == '[') {
      size_t e = raw.find('m', i);
      if (e == std::string::npos) break;
      std::string code = raw.substr(i + 2, e - i - 2);
      int a, b, c;
      if (sscanf(code.c_str(), "38;2;%d;%d;%d", &a, &b, &c) == 3) cur = (a << 16) | (b << 8) | c;
      else if (code == "0" || code.empty()) cur = Text::kNoColour;
      i = e;
      continue;
    }
    t.s += raw[i];
    t.col.push_back(cur);
  }
  return t;
}
inline std::string quote(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '\n') o += "\\n";
    else o += c;
  }
  return o.size() > 600 ? o.substr(0, 600) + "..." : o;
}
// Empty if equal; blanks have no visible colour.
inline std::string difference(const Text& want, const Text& got, bool colours) {
  if (want.s != got.s) {
    size_t i = 0;
    while (i < want.s.size() && i < got.s.size() && want.s[i] == got.s[i]) ++i;
    size_t b = i > 60 ? i - 60 : 0;
    return "printed \"" + quote(got.s.substr(b, 200)) + "\" instead of \"" + quote(want.s.substr(b, 200)) + "\"";
  }
  if (colours)
    for (size_t i = 0; i < want.s.size(); ++i)
      if (!isspace(static_cast<unsigned char>(want.s[i])) && want.col[i] != Text::kAnyColour && want.col[i] != got.col[i])
        return mon::sf("character %zu of \"%s\" has colour %06x instead of %06x", i, quote(got.s).c_str(), got.col[i], want.col[i]);
  return "";
}
struct Column {
  std::string title, fmt, data;
  int width = 10, level = 3;
  bool bounded = false;
  double lo = -INFINITY, hi = INFINITY;
  uint32_t clo = static_cast<uint32_t>(fmt::color::green), chi = static_cast<uint32_t>(fmt::color::red);
  uint32_t now = static_cast<uint32_t>(fmt::color::white);
  uint32_t colour(double v) const {
    if (bounded && v < lo) return clo;
    if (bounded && v > hi) return chi;
    return static_cast<uint32_t>(fmt::color::white);
  }
  void set(double v) { data = fmt::format(fmt::runtime(fmt), v), now = colour(v); }
  void set(int v) { data = fmt::format(fmt::runtime(fmt), v), now = colour(v); }
};
inline std::string right(const std::string& s, int w) { return s.size() < static_cast<size_t>(w) ? std::string(w - s.size(), ' ') + s : s; }
struct Model {
  std::vector<Column> cols;  // in printed order
  int level = 0, freq = 10, count = 0;
  uint32_t header = static_cast<uint32_t>(fmt::color::white);
  Column* find(const std::string& t) {
    for (auto& c : cols)
      if (c.title == t) return &c;
    return nullptr;
  }
  template <class T>
  void log(const std::string& t, T v) {
    Column* c = find(t);
    if (c && level > 0 && level >= c->level) c->set(v);
  }
  void print_header(Text* o) const {
    if (level == 0) return;
    int w = 0;
    for (auto& c : cols)
      if (level >= c.level) o->put(right(c.title, c.width), header), o->put(" ", 0), w += c.width + 1;
    if (w > 0) o->put("\n", 0), o->put(std::string(w, '-'), header), o->put("\n", 0);
  }
  void print_data(Text* o) const {
    if (level == 0) return;
    bool any = false;
    for (auto& c : cols)
      if (level >= c.level) o->put(right(c.data, c.width), c.now), o->put(" ", 0), any = true;
    if (any) o->put("\n", 0);
  }
  void print(Text* o) {
    if (freq > 0 && count % freq == 0) count = 0, print_header(o);
    print_data(o);
    ++count;
  }
  void clear() {
    count = 0;
    for (auto& c : cols) c.data.clear();
  }
};
// The columns of a SolverStats object, as documented.
inline Model stats_columns() {
  Model m;
  auto add = [&](const char* t, const char* f, int level, int width) {
    Column c;
    c.title = t, c.fmt = f, c.level = level, c.width = width;
    m.cols.push_back(c);
  };
  add("iters", "{:>4}", 2, 6);
  add("iter_al", "{:>4}", 1, 8);
  add("cost", "{:>.4g}", 3, 10);
  add("viol", "{:>.3e}", 3, 10);
  add("dJ", "{:>.2e}", 3, 10);
  add("grad", "{:>.2e}", 2, 10);
  add("alpha", "{:>.2f}", 3, 6);
  add("reg", "{:>.1e}", 4, 7);
  add("z", "{:>.3f}", 4, 5);
  add("pen", "{:>.1e}", 5, 7);
  m.header = static_cast<uint32_t>(fmt::color::yellow);
  return m;
}
// The same, but whatever the formats, widths and levels currently are.
inline Model columns_of(altro::SolverLogger& l) {
  Model m = stats_columns();
  for (auto& c : m.cols) {
    auto& e = l.GetEntry(c.title);
    c.fmt = e.GetFormat(), c.width = e.GetWidth(), c.level = static_cast<int>(e.GetLevel());
  }
  m.level = static_cast<int>(l.GetLevel());
  return m;
}
}  // namespace table
