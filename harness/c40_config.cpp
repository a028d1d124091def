// C40: file paths and configuration files: all paths over small component alphabets with chains of operations, all texts of few lines, against reference models
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.tcc"
#include "lightspeed/base/containers/stringpool.tcc"
#include "lightspeed/utils/FilePath.tcc"
#include "lightspeed/utils/configParser.tcc"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/base/streams/fileio.h"
#include "seq.h"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace LightSpeed;
typedef std::string S;
typedef std::vector<S> V;
static S nar(ConstStrW a) { S r; for (natural i = 0; i < a.length(); i++) r += (char)a[i]; return r; }
static S str(ConstStrA a) { return S(a.data(), a.length()); }
static V split(const S &s, char c) { V r(1); for (char x : s) if (x == c) r.push_back(S()); else r.back() += x; return r; }
static S low(S s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// ---------------- paths
static V norm(const S &s) { V r; for (const S &c : split(s, '/')) { if (c.empty()) continue; if (c == "..") { if (!r.empty()) r.pop_back(); } else r.push_back(c); } return r; }
static S join(const V &v) { S r; for (const S &c : v) r += "/" + c; return r.empty() ? "/" : r; }
struct Model { V c; bool folder; S expr; };
template<class C> static void expectPath(const C &c, const Model &m) { FilePath p(c); S g = nar(p); SQ_ASSERT(norm(g) == m.c, "%s is %s instead of %s", m.expr.c_str(), g.c_str(), join(m.c).c_str()); SQ_ASSERT(!g.empty() && g[0] == '/' && g.find("//") == S::npos, "%s is %s", m.expr.c_str(), g.c_str()); SQ_ASSERT(g.find('\0') == S::npos, "%s has a zero character", m.expr.c_str()); if (m.folder) SQ_ASSERT(g[g.size() - 1] == '/', "%s is not a folder: %s", m.expr.c_str(), g.c_str()); else if (!m.c.empty()) SQ_ASSERT(g[g.size() - 1] != '/', "%s is a folder: %s", m.expr.c_str(), g.c_str());
	// used as the base again
	if (m.folder) { FilePath q(p / nil); SQ_ASSERT(norm(nar(q)) == m.c, "%s used as a base is %s", m.expr.c_str(), nar(q).c_str()); FilePath r(p / parent); V u = m.c; if (!u.empty()) u.pop_back(); SQ_ASSERT(norm(nar(r)) == u, "parent of %s is %s", m.expr.c_str(), nar(r).c_str()); } else if (!m.c.empty()) { V u = m.c; S name = u.back(); u.pop_back(); if (g.size() > 2 && g.substr(g.size() - 2) != "..") { FilePath q(p / nil); SQ_ASSERT(norm(nar(q)) == u, "folder of %s is %s", m.expr.c_str(), nar(q).c_str()); SQ_ASSERT(nar(p.getFilename()) == name && norm(nar(p.getPath())) == u, "%s has the name %s in %s", m.expr.c_str(), nar(p.getFilename()).c_str(), nar(p.getPath()).c_str()); } } }
static Model step(const Model &m, const S &rel) { Model n = m; n.folder = false; n.expr += " / \"" + rel + "\""; if (!rel.empty() && rel[0] == '/') n.c.clear(); S all = join(n.c) + "/" + rel; n.c = norm(all); S last = split(rel, '/').back(); if (last == ".." || last.empty()) n.folder = false; return n; }
static const wchar_t *relW[] = {L"x", L"x/y", L"../x", L"..", L"/abs/z", L"x/../y", L"x.y", L"../../x", L"x/.."}; static const char *rel8[] = {"x", "x/y", "../x", "..", "/abs/z", "x/../y", "x.y", "../../x", "x/.."}; enum { NREL = 9 };
template<int left> struct Chain { template<class C> static void go(const C &c, const Model &m, int n) { if (n == 0) return; int k = sq::choose(4); if (k == 0) { Model q = m; if (!q.c.empty()) q.c.pop_back(); q.folder = true; q.expr += " / parent"; next(c / parent, q, n); } else if (k == 1) { Model q = m; q.folder = true; q.expr += " / nil"; expectPath(c / nil, q); } else { int r = sq::choose(NREL); Model q = step(m, rel8[r]); if (k == 2) next(c / ConstStrW(relW[r]), q, n); else next(c / ConstStrA(rel8[r]), q, n); } }
	template<class C> static void next(const C &c, const Model &m, int n) { bool dd = !m.folder && m.expr.size() > 3 && m.expr.substr(m.expr.size() - 3) == "..\""; if (dd || m.c.empty()) { FilePath p(c); S g = nar(p); SQ_ASSERT(norm(g) == m.c, "%s is %s instead of %s", m.expr.c_str(), g.c_str(), join(m.c).c_str()); } else expectPath(c, m); Chain<left - 1>::go(c, m, n - 1); } };
template<> struct Chain<0> { template<class C> static void go(const C &, const Model &, int) {} };
static S basePath(int n) { static const char *c[] = {"a", "b.c", "..", "d"}; S s; for (int i = 0; i < n; i++) s += S("/") + c[sq::choose(4)]; return s; }
SQ_SCENARIO(path_chains, 3, 4) { int n = 1 + sq::choose(sq::depth()); S b = basePath(sq::choose(n == 3 && !sq::thorough() ? 2 : n == 4 ? 2 : 4)); bool dir = b.empty() || sq::choose(2); Model m; S f; if (dir) { f = b; b += "/"; } else { size_t p = b.rfind('/'); f = b.substr(p) == "/.." ? b : b.substr(0, p); } m.c = norm(f); m.folder = true; m.expr = b; sq::op("%s", b.c_str()); FilePath base((String(ConstStrA(b.data(), b.size())))); Chain<4>::go(base, m, n); sq::outcome(b); }
SQ_SCENARIO(string_chains, 1, 1) { S b = basePath(1 + sq::choose(2)) + "/"; Model m; m.c = norm(b); m.folder = true; m.expr = b; FilePath base((String(ConstStrA(b.data(), b.size())))); int r = sq::choose(NREL), q = sq::choose(NREL); String s((ConstStrW(relW[r]))), t((ConstStrW(relW[q]))); Model m1 = step(m, rel8[r]), m2 = step(m1, rel8[q]); { FilePath p(base / s); SQ_ASSERT(norm(nar(p)) == m1.c, "%s is %s", m1.expr.c_str(), nar(p).c_str()); } { FilePath p(base / ConstStrW(relW[r]) / t); SQ_ASSERT(norm(nar(p)) == m2.c, "%s is %s", m2.expr.c_str(), nar(p).c_str()); } { Model m3 = m; if (!m3.c.empty()) m3.c.pop_back(); m3 = step(m3, rel8[q]); FilePath p(base / parent / t); SQ_ASSERT(norm(nar(p)) == m3.c, "%s / parent / %s is %s", b.c_str(), rel8[q], nar(p).c_str()); m3.folder = true; FilePath p2(base / parent / t / nil); SQ_ASSERT(norm(nar(p2)) == m3.c, "folder %s", nar(p2).c_str()); FilePath c(p), d; d = p2; SQ_ASSERT(nar(c) == nar(p) && nar(d) == nar(p2) && nar(d.getPath()) == nar(p2.getPath()), "copy of a path"); } sq::outcome(b + rel8[r]); }
SQ_SCENARIO(path_parts, 3, 4) { static const char *nm[] = {"a", "b.c", ".d", "e.", "f.g.h", "..", "x..", "..y", "q\xc3\xa9"}; int n = 1 + sq::choose(sq::depth()); S s; S last; S par; bool dots = false; for (int i = 0; i < n; i++) { last = nm[sq::choose(9)]; if (i + 1 == n) par = s; s += "/" + last; if (last == "..") dots = true; } bool dir = sq::choose(2); FilePath p = dir ? FilePath(String(ConstStrA(s.data(), s.size())), true) : FilePath(String(ConstStrA(s.data(), s.size()))); sq::op("%s", s.c_str()); if (dir) { FilePath again(p, true); SQ_ASSERT(ConstStrW(again) == ConstStrW(p), "second separator added: %s", nar(again).c_str()); } if (dir) { par = s; last = ""; s += "/"; } else if (last == "..") { par = s; last = ""; } 
	String ws(ConstStrA(s.data(), s.size())), wp(ConstStrA(par.data(), par.size())), wl(ConstStrA(last.data(), last.size())); SQ_ASSERT(ConstStrW(p) == ConstStrW(ws), "%s is kept as %s", s.c_str(), nar(p).c_str()); for (int t = 0; t < 2; t++) { SQ_ASSERT(p.getPath() == ConstStrW(wp), "path of %s is %s", s.c_str(), nar(p.getPath()).c_str()); SQ_ASSERT(p.getFilename() == ConstStrW(wl), "name of %s is %s", s.c_str(), nar(p.getFilename()).c_str()); } size_t d = last.rfind('.'); S ti = last.substr(0, d), ex = d == S::npos ? S() : last.substr(d + 1); String wt(ConstStrA(ti.data(), ti.size())), we(ConstStrA(ex.data(), ex.size())); SQ_ASSERT(p.getTitle() == ConstStrW(wt) && p.getExtension() == ConstStrW(we), "%s has the title %s and the extension %s", s.c_str(), nar(p.getTitle()).c_str(), nar(p.getExtension()).c_str()); SQ_ASSERT(p.getDrive().empty(), "drive");
	if (!dots) { size_t q = par.rfind('/'); S pp = q == S::npos ? S() : par.substr(0, q); String w(ConstStrA(pp.data(), pp.size())); SQ_ASSERT(p.getParentPath() == ConstStrW(w), "parent of %s is %s", s.c_str(), nar(p.getParentPath()).c_str()); } FilePath e; SQ_ASSERT(e.getPath().empty() && e.getFilename().empty(), "empty path has parts"); e = p; SQ_ASSERT(e.getPath() == ConstStrW(wp), "assigned path"); FilePath o((String(ConstStrW(L"/other/long/name.txt")))); o.getPath(); o = p; SQ_ASSERT(o.getFilename() == ConstStrW(wl) && o.getPath() == ConstStrW(wp), "reassigned path"); sq::outcome(s); }
// ---------------- configuration
struct Conf { struct Key { S s, f; bool operator<(const Key &o) const { int r = strcasecmp(s.c_str(), o.s.c_str()); return r ? r < 0 : strcasecmp(f.c_str(), o.f.c_str()) < 0; } }; std::map<Key, std::vector<std::pair<S, S> > > m; void add(const S &s, const S &f, const S &v) { m[Key{s, f}].push_back(std::make_pair(f, v)); } };
static S trim(const S &s) { size_t a = s.find_first_not_of(" \t\r\n\f\v"), b = s.find_last_not_of(" \t\r\n\f\v"); return a == S::npos ? S() : s.substr(a, b - a + 1); }
struct Line { const char *t; int kind; const char *a, *b; }; // 0 nothing, 1 section a, 2 field a = b, 3 error, 4 include a
static const Line lines[] = {
	{"[s]", 1, "s", 0}, {"[T u]", 1, "T u", 0}, {"[ S ]", 1, "S", 0}, {"a=1", 2, "a", "1"}, {"a = 22", 2, "a", "22"}, {" A\t=\tx y ", 2, "A", "x y"}, {"b =z", 2, "b", "z"}, {"b=", 2, "b", ""}, {"ab.c=q=r", 2, "ab.c", "q=r"}, {"a=\"q\"", 2, "a", "q"}, {"b=\"u\\\"v\\\\\"", 2, "b", "u\"v\\"}, {"b=\"k\\bm\"", 2, "b", "k\bm"}, {"b=\"\xc3\xa9\\\xc3\xa9 # x\"", 2, "b", "\xc3\xa9\xc3\xa9 # x"}, {"b=\"c\\\n  d\"", 2, "b", "cd"}, {"a=\"p\\tq\\nr\\x\"", 2, "a", "p\tq\nrx"},
	{"", 0, 0, 0}, {"# c=1", 0, 0, 0}, {"  \t", 0, 0, 0}, {"   # d", 0, 0, 0}, {"novalue", 3, 0, 0}, {"[open", 3, 0, 0}, {"c=\"open", 3, 0, 0}, {"=noname", 2, "", "noname"}, {"b=\"k\\\"", 3, 0, 0}, {"[s]a=3", 5, "s", "3"} };
enum { NL = sizeof(lines) / sizeof(*lines) };

static S run(const std::vector<int> &l, bool ign, const char *eol, bool last, Conf &c, bool &err) { S t, sec; bool in = false; err = false; for (size_t i = 0; i < l.size(); i++) { const Line &x = lines[l[i]]; t += x.t; if (i + 1 < l.size() || last) t += eol; if (err && !ign) continue; switch (x.kind) { case 1: sec = x.a; in = true; break; case 2: if (in) c.add(sec, x.a, x.b); break; case 3: err = true; break; case 5: sec = x.a; in = true; c.add(sec, "a", x.b); break; } } return t; }
static S vals(const IniConfig &ini, const S &s, const S &f) { S r; for (natural i = 0;; i++) { const StringPoolStrRef<char> *v = ini.getValue(ConstStrA(s.data(), s.size()), ConstStrA(f.data(), f.size()), i); if (!v) return r; r += "<" + str(*v) + ">"; } }
static void compare(const IniConfig &ini, const Conf &c, const S &text, const V &secs, const V &fields) { for (const S &s : secs) { for (const S &f : fields) { S w; auto it = c.m.find(Conf::Key{s, f}); if (it != c.m.end()) for (auto &x : it->second) w += "<" + x.second + ">"; S g = vals(ini, s, f); SQ_ASSERT(g == w, "[%s] %s of %s is %s instead of %s", s.c_str(), f.c_str(), sq::show(text).c_str(), sq::show(g).c_str(), sq::show(w).c_str()); IniConfigSection sc = ini.openSection(ConstStrA(s.data(), s.size())); ConstStrA v; bool k = sc.get(v, ConstStrA(f.data(), f.size())); SQ_ASSERT(k == !w.empty(), "presence of [%s] %s", s.c_str(), f.c_str()); if (k) SQ_ASSERT(str(v) == it->second[0].second, "first value"); }
		static const char *pf[] = {"", "a", "AB", "b", "zz"}; for (const char *p : pf) { V w, g; for (auto &e : c.m) if (!strcasecmp(e.first.s.c_str(), s.c_str()) && !strncasecmp(e.first.f.c_str(), p, strlen(p))) for (auto &x : e.second) w.push_back(low(x.first) + "=" + x.second); IniConfigT::Iterator i = ini.enumFields(ConstStrA(s.data(), s.size()), ConstStrA(p)); while (i.hasItems()) { const IniConfigT::FieldVal &a = i.peek(); S b = low(str(a.field)) + "=" + str(a.val); const IniConfigT::FieldVal &n = i.getNext(); SQ_ASSERT(b == low(str(n.field)) + "=" + str(n.val), "peek"); g.push_back(b); } S gw, gg; for (auto &x : w) gw += x + ";"; for (auto &x : g) gg += x + ";"; SQ_ASSERT(gw == gg, "fields of [%s] with the prefix '%s' in %s are %s instead of %s", s.c_str(), p, sq::show(text).c_str(), sq::show(gg).c_str(), sq::show(gw).c_str()); } } }
static const V secs = {"s", "S", "t U", "none"}, flds = {"a", "A", "b", "ab.c", "AB.C", "c", "d", ""};
static void texts(const std::vector<int> &l, bool ign, const char *eol, bool last) { Conf c; bool err; S t = run(l, ign, eol, last, c, err); ConstStrA a(t.data(), t.size()); try { IniConfig ini(a.getFwIter(), ign); SQ_ASSERT(!err || ign, "error in %s was not reported", sq::show(t).c_str()); compare(ini, c, t, secs, flds); } catch (const ConfigParser<ConstStrA::Iterator>::Error &) { SQ_ASSERT(err && !ign, "%s was refused", sq::show(t).c_str()); } }
SQ_SCENARIO(ini_texts, 3, 4) { int n = sq::choose(sq::depth() + 1); std::vector<int> l; for (int i = 0; i < n; i++) l.push_back(sq::choose(NL)); std::vector<int> l2(1, 0); l2.insert(l2.end(), l.begin(), l.end()); for (int v = 0; v < 4; v++) { bool ign = v & 1; bool last = v & 2; texts(l, ign, "\n", last); texts(l2, ign, v == 3 ? "\r\n" : "\n", last); } sq::outcome(sq::hash(l.data(), l.size() * sizeof(int), 1)); }
// values and the types they are read as
SQ_SCENARIO(ini_values, 1, 1) { static const struct { const char *t; int kind; double v; } x[] = {{"0", 7, 0}, {"42", 7, 42}, {"-17", 6, -17}, {"2.5", 4, 2.5}, {"-0.25", 4, -0.25}, {"1e3", 4, 1000}, {"true", 8, 1}, {"on", 8, 1}, {"yes", 8, 1}, {"false", 8, 0}, {"no", 8, 0}, {"off", 8, 0}, {"1", 7, 1}}; int i = sq::choose(13), q = sq::choose(4); S t = S("[s]\nv") + (q & 1 ? " = " : "=") + (q & 2 ? "\"" : "") + x[i].t + (q & 2 ? "\"" : "") + (sq::choose(2) ? "\n" : ""); if (q == 3) t = S("[s]\nv=\"") + x[i].t + "\" "; ConstStrA a(t.data(), t.size()); IniConfig ini(a.getFwIter()); IniConfigSection s = ini.openSection("s"); natural n = 77; integer g = 77; double d = 77; float f = 77; bool b = i & 1; StringA sa; String sw; ConstStrA ca;
	SQ_ASSERT(s.get(sa, "v") && str(sa) == x[i].t && s.get(sw, "v") && nar(sw) == x[i].t && s.get(ca, "v") && str(ca) == x[i].t, "text of %s is %s", sq::show(t).c_str(), str(sa).c_str()); if (x[i].kind & 1) SQ_ASSERT(s.get(n, "v") && n == (natural)x[i].v, "%s as natural", x[i].t); if ((x[i].kind & 6) == 6) SQ_ASSERT(s.get(g, "v") && g == (integer)x[i].v, "%s as integer is %ld", x[i].t, (long)g); if (x[i].kind & 4) { SQ_ASSERT(s.get(d, "v") && d == x[i].v && s.get(f, "v") && f == (float)x[i].v, "%s as a real number is %g", x[i].t, d); } if (x[i].kind == 8 || x[i].kind == 7) SQ_ASSERT(s.get(b, "v") && b == (x[i].v != 0), "%s as bool", x[i].t);
	n = 5; g = 6; b = true; SQ_ASSERT(!s.get(n, "w") && n == 5 && !s.get(g, "w") && g == 6 && !s.get(b, "w") && b && !s.get(d, "V2") && !s.get(sa, "v", 1), "missing value was found"); s.required(sa, "v"); bool thrown = false; try { s.required(g, "w"); } catch (const IniConfigT::RequiredFieldException &) { thrown = true; } SQ_ASSERT(thrown, "missing required value not reported");
	S t2 = "[s.sub]\nk.v=1\nk.v=2\nk.w=3\n[s]\nother=4\n"; ConstStrA a2(t2.data(), t2.size()); IniConfig i2(a2.getFwIter()); IniConfigT::Section sub = i2.openSection("s").openSection("sub"), pfx = sub.openPrefix("k."), px2 = sub.openPrefix("k").openPrefix("."); integer v = 0; SQ_ASSERT(sub.get(v, "k.v") && v == 1 && pfx.get(v, "v", 1) && v == 2 && px2.get(v, "w") && v == 3 && !pfx.get(v, "k.v") && !sub.get(v, "other"), "section in a section or prefix"); S all; for (IniConfigT::Iterator it = pfx.getFwIter(); it.hasItems();) { const IniConfigT::FieldVal &e = it.getNext(); all += str(e.field) + "=" + str(e.val) + ";"; } SQ_ASSERT(all == "k.v=1;k.v=2;k.w=3;", "fields of a prefix: %s", all.c_str()); IniConfigT::Section as = sub; as = pfx; SQ_ASSERT(as.get(v, "v") && v == 1, "assigned section"); sq::outcome(i); }
static const ConstStrA nothing;
// including through a function
struct Inc { const ConstStrA *f; std::vector<int> *log; ConstStrA::Iterator operator()(ConstStrA n) const { log->push_back(n.length() ? n[0] : 0); int k = n.length() == 1 && n[0] >= '0' && n[0] <= '9' ? n[0] - '0' : 0; return f[k].getFwIter(); } };
SQ_SCENARIO(ini_includes, 5, 6) { static const char *ln[] = {".include 1\n[s]\n", ".include 2\n[T u]\n", "a=m\n", "[s]\n", "# x\n", ".INCLUDE 1\n[none]\n", "b=\"w\"\n"}; V f = {"", "[s]\nd=one\n", "[s]\nc=two\n.include 1\n[T u]\nd=three"}; Conf c; S t, sec; bool in = false; std::vector<int> want, got; int n = sq::choose(sq::depth() + 1); for (int i = 0; i < n; i++) { int k = sq::choose(7); t += ln[k]; switch (k) { case 0: c.add("s", "d", "one"); want.push_back('1'); sec = "s"; in = true; break; case 1: c.add("s", "c", "two"); c.add("s", "d", "one"); c.add("T u", "d", "three"); want.push_back('2'); want.push_back('1'); sec = "T u"; in = true; break; case 2: if (in) c.add(sec, "a", "m"); break; case 3: sec = "s"; in = true; break; case 5: c.add("s", "d", "one"); want.push_back('1'); sec = "none"; in = true; break; case 6: if (in) c.add(sec, "b", "w"); break; } }
	struct Cfg : public IniConfig { Cfg(ConstStrA::Iterator i, const Inc &f) : IniConfig(nothing.getFwIter()) { parseIni(i, false, f); } }; ConstStrA fa[3]; for (int i = 0; i < 3; i++) fa[i] = ConstStrA(f[i].data(), f[i].size()); ConstStrA ta(t.data(), t.size()); Inc fn; fn.f = fa; fn.log = &got; Cfg ini(ta.getFwIter(), fn); SQ_ASSERT(got == want, "%zu includes of %zu in %s", got.size(), want.size(), sq::show(t).c_str()); compare(ini, c, t, secs, flds); sq::outcome(t); }
// files including files, relative to the including file
static std::function<void()> body; struct TApp : public App { virtual integer start(const Args &) { body(); return 0; } };
SQ_SCENARIO(ini_files, 4, 5) { S dir = S(sq::scratchDir()) + "/cfg"; mkdir(dir.c_str(), 0700); mkdir((dir + "/sub").c_str(), 0700); auto put = [&](const S &n, const S &t) { FILE *o = fopen((dir + "/" + n).c_str(), "wb"); fwrite(t.data(), 1, t.size(), o); fclose(o); }; static const char *ln[] = {".include sub/i.ini\n[s]\n", "a=m\n", ".include o.ini\n[T u]\n", "[s]\n", ".include sub/../o.ini\n"}; Conf c; S t, sec; bool in = false; int n = sq::choose(sq::depth() + 1); for (int i = 0; i < n; i++) { int k = sq::choose(5); t += ln[k]; switch (k) { case 0: c.add("s", "b", "sub"); c.add("s", "c", "deep"); c.add("s", "d", "other"); c.add("s", "ab.c", "after"); sec = "s"; in = true; break; case 1: if (in) c.add(sec, "a", "m"); break; case 2: c.add("s", "d", "other"); sec = "T u"; in = true; break; case 3: sec = "s"; in = true; break; case 4: c.add("s", "d", "other"); in = false; break; } if (k == 4) { t += "[none]\n"; sec = "none"; in = true; } }
	bool abs = sq::choose(2); put("m.ini", t); put("o.ini", "[s]\nd=other"); put("sub/i.ini", "[s]\nb=sub\n.include j.ini\n.include ../o.ini\n[s]\nab.c=after\n"); put("sub/j.ini", "[s]\nc=deep\n"); put("sub/o.ini", "[s]\nd=wrong\n"); int fds = 0; for (int i = 0; i < 64; i++) fds += fcntl(i, F_GETFD) >= 0; { TApp app; char nm[] = "x"; char *av[] = {nm, 0}; S self = dir + "/app"; String ws(ConstStrA(self.data(), self.size())); body = [&]() { S m = abs ? dir + "/m.ini" : S("m.ini"); String wm(ConstStrA(m.data(), m.size())); { IniConfig ini(ConstStrW(wm), 0); compare(ini, c, t, secs, flds); } String ne((ConstStrA("missing.ini"))); bool thrown = false; try { IniConfig no(ConstStrW(ne), 0); } catch (const FailedToParseINIFileException &) { thrown = true; } SQ_ASSERT(thrown, "missing file was not reported"); }; app.main_entry(1, av, ws); body = nullptr; } int f2 = 0; for (int i = 0; i < 64; i++) f2 += fcntl(i, F_GETFD) >= 0; SQ_ASSERT(f2 <= fds, "%d files stay open", f2 - fds);
	static const char *un[] = {"m.ini", "o.ini", "sub/i.ini", "sub/j.ini", "sub/o.ini"}; for (const char *u : un) unlink((dir + "/" + u).c_str()); sq::outcome(t); }
