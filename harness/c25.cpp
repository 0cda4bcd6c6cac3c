// C25: the console table prints what was logged, at the right level and cadence.
#include "altro/common/solver_stats.hpp"
#include "table.hpp"
using namespace gen;
using altro::LogEntry;
using altro::LogLevel;
using altro::SolverLogger;

static const fmt::color kColours[] = {fmt::color::white, fmt::color::red, fmt::color::green, fmt::color::cyan, fmt::color::yellow, fmt::color::blue, fmt::color::orange};
static double value(Rng& r) {
  int k = r.integer(0, 11);
  if (k == 0) return 0.0;
  if (k == 1) return r.pick({double(INFINITY), -double(INFINITY), double(NAN), 1e300, -1e-300});
  if (k == 2) return r.integer(-3, 3);
  return r.gauss() * std::pow(10.0, r.integer(-7, 7));
}
static std::string title(Rng& r, int i) {
  static const char* parts[] = {"cost", "x", "{}", "a long column title", "%d", "it-er", "J{0}", " "};
  return std::string(r.coin(0.7) ? "c" : parts[r.integer(0, 7)]) + std::to_string(i);
}

static void script(Rng& r, mon::Ctx& ctx) {
  int level = r.integer(0, 5);
  SolverLogger log{LogLevel(level)};
  table::Model m;
  m.level = level;
  std::vector<bool> is_int;  // by creation, title -> type below
  std::map<std::string, bool> ints;
  std::string ops;
  table::Text want;
  std::string raw;
  bool ghost = false;  // a row that printed nothing was counted
  int n = r.integer(5, 80), created = 0;
  auto add = [&] {
    table::Column c;
    c.title = title(r, created++);
    bool isint = r.coin(0.3);
    c.fmt = isint ? r.pick({"{:>4}", "{}", "{:<6}", "{:+d}"}) : r.pick({"{:>.4g}", "{:.2e}", "{}", "{:8.3f}", "{:+.1f}", "{:>9.3g}", "{:.0f}"});
    int size = m.cols.size();
    int col = r.integer(-size - 1, size);
    LogEntry& e = isint ? log.AddEntry(col, c.title, c.fmt, LogEntry::kInt) : log.AddEntry(col, c.title, c.fmt);
    ctx.check(e.GetTitle() == c.title && e.GetFormat() == c.fmt, "entry", "the new entry has another title or format");
    if (r.coin(0.7)) c.width = r.integer(0, 14), e.SetWidth(c.width);
    if (r.coin(0.7)) c.level = r.integer(1, 5), e.SetLevel(LogLevel(c.level));
    if (r.coin(0.2)) e.SetName("name of " + c.title);
    if (r.coin(0.4)) {
      double lo = value(r);
      if (std::isnan(lo)) lo = 0;
      auto col2 = kColours[r.integer(0, 6)];
      c.bounded = true, c.lo = lo, c.clo = static_cast<uint32_t>(col2);
      e.SetLowerBound(lo, col2);
    }
    if (r.coin(0.4)) {
      double hi = value(r);
      if (std::isnan(hi)) hi = 0;
      hi = std::max(hi, c.lo);
      bool def = r.coin(0.3);
      auto col2 = kColours[r.integer(0, 6)];
      c.bounded = true, c.hi = hi;
      if (def) e.SetUpperBound(hi);
      else c.chi = static_cast<uint32_t>(col2), e.SetUpperBound(hi, col2);
    }
    ints[c.title] = isint;
    m.cols.insert(m.cols.begin() + (col >= 0 ? col : size + col + 1), c);
    ctx.count("columns");
  };
  for (int i = 0; i < n; ++i) {
    int what = r.integer(0, 99);
    if (m.cols.empty() || what < 8) {
      if (m.cols.size() < 9) add(), ops += 'a';
    } else if (what < 50) {
      auto& c = m.cols[r.integer(0, m.cols.size() - 1)];
      bool active = m.level > 0 && m.level >= c.level;
      if (ints[c.title]) {
        int v = r.coin(0.1) ? r.pick({2147483647, -2147483647 - 1}) : r.integer(-300, 3000);
        log.Log(c.title, v);
        m.log(c.title, v);
      } else {
        double v = value(r);
        if (c.bounded && r.coin(0.3)) v = r.coin() ? c.lo : c.hi;  // at a bound
        if (r.coin(0.1)) {
          log.Log(c.title, static_cast<float>(v));
          if (active) c.data = fmt::format(fmt::runtime(c.fmt), static_cast<float>(v)), c.now = c.colour(static_cast<float>(v));
        } else {
          log.Log(c.title, v);
          m.log(c.title, v);
        }
        if (active && c.now != static_cast<uint32_t>(fmt::color::white)) ctx.count("coloured");
      }
      ctx.count(active ? "logged" : "logged_inactive");
      ops += active ? 'l' : 'i';
    } else if (what < 75) {
      table::Text none;
      m.print_data(&none);
      if (none.s.empty()) ghost = true;
      else if (ghost) log.Clear(), m.clear(), ghost = false;
      size_t before = want.s.size();
      raw += mon::capture([&] { log.Print(); });
      m.print(&want);
      if (want.s.size() > before) ctx.count("rows");
      ops += 'p';
    } else if (what < 79) {
      raw += mon::capture([&] { log.PrintHeader(); });
      m.print_header(&want);
      ctx.count("headers");
      ops += 'h';
    } else if (what < 83) {
      raw += mon::capture([&] { log.PrintData(); });
      m.print_data(&want);
      ops += 'd';
    } else if (what < 91) {
      m.level = r.integer(0, 5);
      if (m.level == 0 && r.coin()) log.Disable();
      else log.SetLevel(LogLevel(m.level));
      ctx.check(log.GetLevel() == LogLevel(m.level), "level", "the level is not the one that was set");
      ops += 'v';
    } else if (what < 95) {
      log.Clear();
      m.clear();
      ghost = false;
      if (r.coin()) m.freq = r.integer(0, 6), log.SetFrequency(m.freq);
      ops += 'c';
    } else if (what < 97) {
      auto col = kColours[r.integer(0, 6)];
      log.SetHeaderColor(col);
      m.header = static_cast<uint32_t>(col);
      ops += 'k';
    } else {
      auto& c = m.cols[r.integer(0, m.cols.size() - 1)];
      LogEntry& e = log.GetEntry(c.title);
      int k = r.integer(0, 2);
      if (k == 0) c.width = r.integer(0, 14), e.SetWidth(c.width);
      if (k == 1) c.level = r.integer(1, 5), e.SetLevel(LogLevel(c.level));
      if (k == 2 && std::isinf(c.lo) && c.hi > 0) {
        c.bounded = true, c.lo = -r.uni(0, 5), c.clo = static_cast<uint32_t>(fmt::color::green);
        e.SetLowerBound(c.lo);
        c.now = table::Text::kAnyColour;  // only values logged from now on are judged
      }
      ctx.check(e.GetWidth() == c.width && e.GetLevel() == LogLevel(c.level) && e.GetTitle() == c.title, "entry-settings", "an entry does not return what was set");
      ops += 's';
    }
    ctx.check(log.NumEntries() == static_cast<int>(m.cols.size()), "entries", "wrong number of entries");
  }
  auto d = table::difference(want, table::parse(raw), true);
  ctx.check(d.empty(), "table", [&] { return "after " + ops + ": " + d; });
  ctx.distinct(mon::hash_bytes(want.s.data(), want.s.size()));
  ctx.count("scripts");
  if (ctx.want_sample()) ctx.sample(table::quote(want.s));
}

// The columns of solver statistics, with the colours set through the tolerances.
static void stats(Rng& r, mon::Ctx& ctx) {
  altro::SolverStats s;
  table::Model m = table::stats_columns();
  m.level = r.integer(0, 5);
  s.SetVerbosity(LogLevel(m.level));
  if (r.coin(0.8)) {
    double a = std::pow(10, r.uni(-6, 1)), b = std::pow(10, r.uni(-6, 1)), c = std::pow(10, r.uni(-6, 1));
    s.SetTolerances(a, b, c);
    const char* t[] = {"dJ", "viol", "grad"};
    double v[] = {a, b, c};
    for (int i = 0; i < 3; ++i) m.find(t[i])->bounded = true, m.find(t[i])->lo = v[i];
    ctx.count("tolerances");
  }
  m.freq = r.integer(0, 5);
  s.GetLogger().SetFrequency(m.freq);
  table::Text want;
  std::string raw;
  int rows = r.integer(1, 20);
  for (int i = 0; i < rows; ++i) {
    for (auto& c : m.cols) {
      if (!r.coin(0.6)) continue;
      bool isint = c.title.compare(0, 4, "iter") == 0;
      double v = c.bounded && r.coin(0.1) ? c.lo : value(r);
      if (isint) {
        int k = r.integer(0, 99999);
        s.Log(c.title, k), m.log(c.title, k);
      } else {
        s.Log(c.title, v), m.log(c.title, v);
      }
    }
    raw += mon::capture([&] { s.PrintLast(); });
    m.print(&want);
    if (r.coin(0.7)) s.NewIteration();
  }
  auto d = table::difference(want, table::parse(raw), true);
  ctx.check(d.empty(), "stats-table", [&] { return mon::sf("verbosity %d, header every %d rows: ", m.level, m.freq) + d; });
  ctx.count(mon::sf("stats_tables_%d", m.level));
}

static void misuse(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(0, 3), n = r.integer(0, 4), by = r.integer(1, 3);
  auto c = mon::in_child([&] {
    SolverLogger l(LogLevel::kInner);
    for (int i = 0; i < n; ++i) l.AddEntry(-1, std::string(1, 'a' + i), std::string("{}"));
    if (k == 0) l.SetFrequency(-by);
    if (k == 1) l.AddEntry(n + by, std::string("z"), std::string("{}"));
    if (k == 2) l.AddEntry(-n - 1 - by, std::string("z"), std::string("{}"));
    if (k == 3) {
      auto& e = l.AddEntry(-1, std::string("z"), std::string("{}"));
      e.SetLowerBound(1.0);
      e.SetUpperBound(1.0 - by);
    }
    return 0;
  });
  ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "misuse", [&] {
    return mon::sf("misuse %d was not rejected (exit %d, signal %d)", k, c.code, c.sig);
  });
  ctx.count("misuses");
}

static void run(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 12; ++i) script(r, ctx);
  for (int i = 0; i < 4; ++i) stats(r, ctx);
  if (r.coin(0.1)) misuse(r, ctx);
}
MON_MAIN(run)
