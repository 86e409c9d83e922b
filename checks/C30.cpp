// C30: maps are read and written by the handler that is registered for the name or the extension.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/Factory.h>
#include <unistd.h>

#include <boost/filesystem.hpp>
#include <fstream>
#include <typeinfo>

#include "common.h"
using namespace lanelet;
using pbt::Case;
using namespace io_handlers;

namespace {
struct Kind {
  const char *parser, *writer, *extension;
};
constexpr Kind Kinds[] = {{"pbt_alpha", "pbt_alpha", ".alpha"}, {"pbt_alph", "pbt_alph", ".alph"},   {"pbt_Alpha", "pbt_w_Alpha", ".Alpha"}, {"b", "pbt_b", ".b"},
                          {"pbt beta", "pbt beta", ".os"},      {"pbt_reader", "", ".osmx"},        {"", "pbt_writer", ".osmx2"},            {"pbt_none", "pbt_none", ""},
                          {"osm", "osm", ".osm.gz"},            {"pbt_z", "pbt_z", ".z"},           {"osm_handler2", "bin", ".bin2"},        {"pbt_y", "pbt_y", ".y y"}};
constexpr int N = int(sizeof(Kinds) / sizeof(Kinds[0]));

//! what a handler was called with and how it behaves
struct Log {
  int handler{-1};
  bool write{false};
  std::string file;
  Origin origin;
  const Projector* projector{};
  std::string type;
  io::Configuration config, params;
  const LaneletMap* map{};
  bool touchDefault{false}, threwDefault{false};
};
struct Plan {
  ErrorMessages errors;
  int fail{0};  // 1: IOError 2: std::runtime_error
  bool askProjector{false};
};
std::vector<Log> logs;
Plan plan;
Id made{100};

template <int I>
class P : public Parser {
 public:
  using Parser::Parser;
  static constexpr const char* name() { return Kinds[I].parser; }
  static constexpr const char* extension() { return Kinds[I].extension; }
  std::unique_ptr<LaneletMap> parse(const std::string& f, ErrorMessages& errors) const override {
    Log l;
    l.handler = I, l.file = f, l.config = const_cast<P*>(this)->config();
    ask(l);
    logs.push_back(l);
    errors = plan.errors;
    if (plan.fail == 1) throw IOError("planned");
    if (plan.fail == 2) throw std::runtime_error("planned");
    auto m = std::make_unique<LaneletMap>();
    m->add(Point3d(made, 1, 2, 3));
    return m;
  }
  void ask(Log& l) const {
    if (!plan.askProjector) return;
    try {
      auto& p = projector();
      l.projector = &p, l.origin = p.origin(), l.type = typeid(p).name();
    } catch (IOError&) {
      l.threwDefault = true;
    }
  }
};
template <int I>
class W : public Writer {
 public:
  using Writer::Writer;
  static constexpr const char* name() { return Kinds[I].writer; }
  static constexpr const char* extension() { return Kinds[I].extension; }
  void write(const std::string& f, const LaneletMap& m, ErrorMessages& errors, const io::Configuration& params) const override {
    Log l;
    l.handler = I, l.write = true, l.file = f, l.config = const_cast<W*>(this)->config(), l.params = params, l.map = &m;
    if (plan.askProjector) {
      try {
        auto& p = projector();
        l.projector = &p, l.origin = p.origin(), l.type = typeid(p).name();
      } catch (IOError&) {
        l.threwDefault = true;
      }
    }
    logs.push_back(l);
    errors = plan.errors;
    if (plan.fail == 1) throw IOError("planned");
    if (plan.fail == 2) throw std::runtime_error("planned");
  }
};
template <int I, bool Named>
struct RegP {
  RegisterParser<P<I>> p;
};
template <int I>
struct RegP<I, false> {};
template <int I, bool Named>
struct RegW {
  RegisterWriter<W<I>> w;
};
template <int I>
struct RegW<I, false> {};
constexpr bool named(const char* s) { return s[0] != 0; }
template <int I>
struct Reg : Reg<I + 1> {
  RegP<I, named(Kinds[I].parser)> p;
  RegW<I, named(Kinds[I].writer)> w;
};
template <>
struct Reg<N> {};
void registerAll() { static Reg<0> all; }

class Proj : public Projector {
 public:
  using Projector::Projector;
  BasicPoint3d forward(const GPSPoint& p) const override { return {p.lon, p.lat, p.ele}; }
  GPSPoint reverse(const BasicPoint3d& p) const override { return {p.y(), p.x(), p.z()}; }
};
struct Dir {
  std::string d;
  Dir() {
    const char* e = getenv("PBT_TMP");
    d = std::string(e ? e : "/tmp") + "/c30." + std::to_string(getpid());
    boost::filesystem::create_directories(d);
  }
  ~Dir() { boost::filesystem::remove_all(d); }
};
std::string show(const io::Configuration& c) {
  std::string r;
  for (auto& x : c) r += x.first + "=" + x.second.value() + " ";
  return r;
}
//! the handler expected for a name or an extension, -1 if none, -2 if one of the built-in ones
int byName(bool write, const std::string& n) {
  if (n == "osm_handler" || n == "bin_handler") return -2;
  for (int i = 0; i < N; ++i) {
    std::string k = write ? Kinds[i].writer : Kinds[i].parser;
    if (!k.empty() && k == n) return i;
  }
  return -1;
}
int byExtension(bool write, const std::string& n) {
  if (n == ".osm" || n == ".bin") return -2;
  for (int i = 0; i < N; ++i)
    if (n == Kinds[i].extension && !n.empty() && (write ? Kinds[i].writer : Kinds[i].parser)[0]) return i;
  return -1;
}
std::string extensionOf(const std::string& base) {
  auto p = base.rfind('.');
  return p == std::string::npos ? "" : base.substr(p);
}
std::string mutate(pbt::Src& s, std::string n) {
  switch (s.below(6)) {
    case 0: return n + s.of<std::string>({" ", "x", ".", "_"});
    case 1: return n.empty() ? n : n.substr(0, n.size() - 1);
    case 2: return n.empty() ? n : n.substr(1);
    case 3:
      for (auto& ch : n) ch = char(std::toupper(ch));
      return n;
    case 4: return "";
    default: return " " + n;
  }
}

void dispatch(Case& c) {
  registerAll();
  auto& s = c.src;
  Dir dir;
  std::ostringstream told;
  c.describe([&told](auto& o) { o << told.str(); });
  size_t hits = 0, errorsSeen = 0;
  for (int t = 0; t < 6; ++t) {
    bool write = s.flip(), useName = s.flip(), useProj = s.flip(), withErrors = s.flip(), withParams = s.flip(), dflt = s.chance(1, 6);
    // the file
    std::string ext = s.chance(1, 5) ? std::string(s.of<std::string>({"", ".osm", ".bin", ".xyz", ".OSM"})) : std::string(Kinds[s.below(N)].extension);
    if (s.chance(1, 5)) {
      ext = mutate(s, ext);
      if (ext.find('/') != std::string::npos) throw pbt::Discard{};
    }
    std::string base = s.of<std::string>({"map", "a.b", "map.osm", "ümläut", "with space"}) + ext;
    if (base.back() == '.') base += "q";  // what a name that ends with a dot has as extension is up to boost
    std::string folder = dir.d + s.of<std::string>({"", "", "/sub.alpha"}), file = folder + "/" + base;
    boost::filesystem::create_directories(folder);
    bool exists = !s.chance(1, 6);
    boost::filesystem::remove(file);
    if (exists) std::ofstream(file) << "x";
    // the handler
    std::string name;
    if (useName) {
      auto& k = Kinds[s.below(N)];
      name = write ? k.writer : k.parser;
      if (s.chance(1, 4)) name = mutate(s, name);
    }
    int want = useName ? byName(write, name) : byExtension(write, extensionOf(base));
    if (want == -2) continue;
    plan = Plan();
    if (s.chance(1, 3))
      for (size_t i = s.size(1, 3); i > 0; --i) plan.errors.push_back("message " + std::to_string(i) + s.of<std::string>({"", " %s", "\n"}));
    plan.fail = s.chance(1, 6) ? int(s.range(1, 2)) : 0;
    plan.askProjector = !s.chance(1, 4);
    io::Configuration params;
    if (withParams)
      for (size_t i = s.size(0, 3); i > 0; --i) params[s.of<std::string>({"josm_upload", "a", "b"})] = s.of<std::string>({"true", "x", ""});
    Origin origin = dflt ? Origin::defaultOrigin() : Origin({s.grid(-60, 60, 0.5), s.grid(-170, 170, 0.5), s.grid(0, 9, 1)});
    Proj proj(origin);
    ErrorMessages got{"left over"};
    ErrorMessages* e = withErrors ? &got : nullptr;
    LaneletMap map;
    logs.clear();
    ++made;
    told << (write ? "write " : "load ") << base << (useName ? " by name '" + name + "'" : "") << (useProj ? " with projector" : " with origin") << (withErrors ? " with errors" : "") << " expecting handler " << want << (exists ? "" : ", no such file")
         << " errors " << plan.errors.size() << " fail " << plan.fail << "\n";
    std::unique_ptr<LaneletMap> m;
    std::string threw, what;
    try {
      if (write) {
        if (useName) useProj ? (withParams ? lanelet::write(file, map, name, proj, e, params) : lanelet::write(file, map, name, proj, e)) : (withParams ? lanelet::write(file, map, name, origin, e, params) : lanelet::write(file, map, name, origin, e));
        else useProj ? (withParams ? lanelet::write(file, map, proj, e, params) : lanelet::write(file, map, proj, e)) : (withParams ? lanelet::write(file, map, origin, e, params) : lanelet::write(file, map, origin, e));
      } else {
        if (useName) m = useProj ? (withParams ? load(file, name, proj, e, params) : load(file, name, proj, e)) : (withParams ? load(file, name, origin, e, params) : load(file, name, origin, e));
        else m = useProj ? (withParams ? load(file, proj, e, params) : load(file, proj, e)) : (withParams ? load(file, origin, e, params) : load(file, origin, e));
      }
    } catch (FileNotFoundError& x) {
      threw = "FileNotFoundError", what = x.what();
    } catch (UnsupportedExtensionError& x) {
      threw = "UnsupportedExtensionError", what = x.what();
    } catch (UnsupportedIOHandlerError& x) {
      threw = "UnsupportedIOHandlerError", what = x.what();
    } catch (ParseError& x) {
      threw = "ParseError", what = x.what();
    } catch (WriteError& x) {
      threw = "WriteError", what = x.what();
    } catch (IOError& x) {
      threw = "IOError", what = x.what();
    } catch (std::runtime_error& x) {
      threw = "runtime_error", what = x.what();
    }
    std::string expect, ctx = (write ? "writing " : "loading ") + base + (useName ? " with the handler '" + name + "'" : "");
    bool called = false;
    if (!write && !exists) expect = "FileNotFoundError";
    else if (want < 0) expect = useName ? "UnsupportedIOHandlerError" : "UnsupportedExtensionError";
    else {
      called = true;
      if (plan.fail) expect = plan.fail == 1 ? "IOError" : "runtime_error";
      else if (!plan.errors.empty() && !withErrors) expect = write ? "WriteError" : "ParseError";
    }
    PBT_EQ(threw, expect, ctx << ": exception");
    PBT_EQ(logs.size(), size_t(called), ctx << ": calls of handlers");
    c.did();
    if (!called) {
      PBT_EQ(got.size(), size_t(1), ctx << ": errors without a handler");
      continue;
    }
    ++hits;
    auto& l = logs[0];
    PBT_EQ(l.handler, want, ctx << ": handler");
    PBT_EQ(l.write, write, ctx << ": kind of handler");
    PBT_EQ(l.file, file, ctx << ": file name passed to the handler");
    PBT_EQ(show(l.config), show(params), ctx << ": config()");
    if (write) {
      PBT_EQ(show(l.params), show(params), ctx << ": parameters of write()");
      PBT_CHECK(l.map == &map, ctx << ": another map");
    }
    if (plan.askProjector) {
      bool refuse = dflt && !write;
      PBT_EQ(l.threwDefault, refuse, ctx << ": refused the default origin");
      if (!refuse) {
        PBT_EQ(l.origin.isDefault, dflt, ctx << ": default origin");
        PBT_CHECK(l.origin.position.lat == origin.position.lat && l.origin.position.lon == origin.position.lon && l.origin.position.ele == origin.position.ele, ctx << ": origin of the projector");
        if (useProj) PBT_CHECK(l.projector == &proj, ctx << ": another projector");
        else PBT_EQ(l.type, std::string(typeid(DefaultProjector).name()), ctx << ": type of projector");
      }
    }
    if (plan.fail) continue;
    if (withErrors) PBT_EQ(chk::show(got), chk::show(plan.errors), ctx << ": errors");
    for (auto& x : plan.errors) {
      ++errorsSeen;
      if (!withErrors) PBT_CHECK(what.find(x) != std::string::npos, ctx << ": '" << x << "' is not part of '" << what << "'");
    }
    if (!write && threw.empty()) {
      PBT_CHECK(m != nullptr && m->pointLayer.size() == 1 && m->pointLayer.exists(made), ctx << ": another map");
    }
  }
  c.label("handlers called", hits), c.label("errors", errorsSeen);
  c.nontrivial(hits > 0);
}

void lists(Case& c) {
  registerAll();
  auto& s = c.src;
  std::set<std::string> parsers{"osm_handler", "bin_handler"}, writers = parsers, pe{".osm", ".bin"}, we = pe;
  for (auto& k : Kinds) {
    if (k.parser[0]) parsers.insert(k.parser), pe.insert(k.extension);
    if (k.writer[0]) writers.insert(k.writer), we.insert(k.extension);
  }
  pe.erase(""), we.erase("");
  auto is = [&](std::vector<std::string> got, const std::set<std::string>& want, const char* what) {
    c.did();
    std::sort(got.begin(), got.end());
    PBT_CHECK(got == std::vector<std::string>(want.begin(), want.end()), what << " is " << chk::show(got));
  };
  is(supportedParsers(), parsers, "supportedParsers"), is(supportedParserExtensions(), pe, "supportedParserExtensions");
  is(supportedWriters(), writers, "supportedWriters"), is(supportedWriterExtensions(), we, "supportedWriterExtensions");
  is(ParserFactory::availableParsers(), parsers, "availableParsers"), is(ParserFactory::availableExtensions(), pe, "available parser extensions");
  is(WriterFactory::availableWriters(), writers, "availableWriters"), is(WriterFactory::availableExtensions(), we, "available writer extensions");
  // the factories
  Proj proj(Origin({49, 8}));
  const io::Configuration given{{"k", Attribute(s.of<std::string>({"", "v", "17"}))}};
  plan = Plan();
  plan.askProjector = true;
  for (int t = 0; t < 4; ++t) {
    bool write = s.flip(), useName = s.flip();
    auto& k = Kinds[s.below(N)];
    std::string n = useName ? (write ? k.writer : k.parser) : k.extension;
    if (s.chance(1, 3)) n = mutate(s, n);
    int want = useName ? byName(write, n) : byExtension(write, n);
    if (want == -2) continue;
    logs.clear();
    std::string threw;
    // the handler keeps the configuration, also if it is the default one or does not outlive the call
    size_t how = s.below(3);
    const io::Configuration cfg = how == 2 ? io::Configuration() : given;
    auto make = [&](auto byName, auto byExt) { return useName ? byName() : byExt(); };
    auto tmp = [&] { return io::Configuration(given); };
    try {
      if (write) {
        using F = WriterFactory;
        auto w = how == 0   ? make([&] { return F::create(n, proj, cfg); }, [&] { return F::createFromExtension(n, proj, cfg); })
                 : how == 1 ? make([&] { return F::create(n, proj, tmp()); }, [&] { return F::createFromExtension(n, proj, tmp()); })
                            : make([&] { return F::create(n, proj); }, [&] { return F::createFromExtension(n, proj); });
        ErrorMessages e;
        w->write("f", LaneletMap(), e);
      } else {
        using F = ParserFactory;
        auto p = how == 0   ? make([&] { return F::create(n, proj, cfg); }, [&] { return F::createFromExtension(n, proj, cfg); })
                 : how == 1 ? make([&] { return F::create(n, proj, tmp()); }, [&] { return F::createFromExtension(n, proj, tmp()); })
                            : make([&] { return F::create(n, proj); }, [&] { return F::createFromExtension(n, proj); });
        ErrorMessages e;
        p->parse("f", e);
      }
    } catch (UnsupportedExtensionError&) {
      threw = "UnsupportedExtensionError";
    } catch (UnsupportedIOHandlerError&) {
      threw = "UnsupportedIOHandlerError";
    }
    std::string ctx = std::string(write ? "writer" : "parser") + (useName ? " by name '" : " by extension '") + n + "'";
    PBT_EQ(threw, std::string(want >= 0 ? "" : useName ? "UnsupportedIOHandlerError" : "UnsupportedExtensionError"), ctx << ": exception");
    c.did();
    if (want < 0) continue;
    PBT_EQ(logs.size(), size_t(1), ctx << ": calls");
    PBT_EQ(logs[0].handler, want, ctx << ": handler");
    PBT_EQ(logs[0].write, write, ctx << ": kind");
    PBT_EQ(show(logs[0].config), show(cfg), ctx << ": config()");
    PBT_CHECK(logs[0].projector == &proj, ctx << ": another projector");
    c.nontrivial();
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C30";
  s.rule = "a registered handler was called";
  s.assumptions = {"no two handlers are registered for the same name or extension", "the extension starts at the last dot of the last part of the path; names that end with a dot are left out"};
  s.props = {
      {"dispatch", "load and write by name and by extension with recording handlers", 40000, 1500000, dispatch},
      {"lists", "lists of handlers and the factories", 20000, 800000, lists},
  };
  return pbt::runMain(s, argc, argv);
}
