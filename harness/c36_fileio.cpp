// C36: file operations over a complete in-memory file system: every crash point, every failing system call, short transfers and interruptions
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/interface.tcc"
#include "lightspeed/base/streams/abstractFileIOService.h"
#include "vfs.h"
using namespace LightSpeed;
typedef std::string S;
static IFileIOServices &io() { return IFileIOServices::getIOServices(); }
static std::wstring W(const S &s) { std::wstring w; for (size_t i = 0; i < s.size();) { unsigned char c = s[i++]; unsigned v = c; int n = 0; if (c >= 0xF0) { v = c & 7; n = 3; } else if (c >= 0xE0) { v = c & 15; n = 2; } else if (c >= 0xC0) { v = c & 31; n = 1; } while (n--) v = v << 6 | (s[i++] & 63); w += (wchar_t)v; } return w; }
static S U(ConstStrW w) { S s; for (natural i = 0; i < w.length(); i++) { unsigned v = w[i]; if (v < 0x80) s += (char)v; else if (v < 0x800) { s += (char)(0xC0 | v >> 6); s += (char)(0x80 | (v & 63)); } else if (v > 0x10FFFF) s += '?'; else if (v < 0x10000) { s += (char)(0xE0 | v >> 12); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); } else { s += (char)(0xF0 | v >> 18); s += (char)(0x80 | (v >> 12 & 63)); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); } } return s; }
#define P(x) ConstStrW(W(x).c_str())
static void leaks() { SQ_ASSERT(vfs::openFds() == 0, "%d files stay open", vfs::openFds()); SQ_ASSERT(vfs::openDirs == 0, "%d folders stay open", vfs::openDirs); }
static void faults(int n) { sq::setDeviations(n); vfs::faults = n > 0; }
template<typename F> static bool ok(const F &f) { try { f(); return true; } catch (const Exception &) { return false; } }
static void sameTree(const std::map<S, S> &a, const std::map<S, S> &b, const char *when) { SQ_ASSERT(a == b, "%s: the files are %s instead of %s", when, vfs::show(a).c_str(), vfs::show(b).c_str()); }
// replace-on-close
SQ_SCENARIO(commit_on_close, 1, 2) { vfs::Session ses; S old = sq::choose(2) ? "OLD" : ""; bool stale = sq::choose(2); if (!old.empty()) vfs::put("t", vfs::REG, old); if (stale) vfs::put("t.new", vfs::REG, "STALE"); static const OpenFlags::Type fl[] = {0, OpenFlags::create | OpenFlags::truncate, OpenFlags::newFile | OpenFlags::create, OpenFlags::deleteOnClose, OpenFlags::append}; int fi = sq::choose(5); OpenFlags::Type flags = OpenFlags::commitOnClose | fl[fi];
	bool rnd = sq::choose(2); int writes = sq::choose(3), end = sq::choose(4); S was = vfs::content("t"), written; bool may = false, threw = false, closed = false; sq::op("old %s flags %d %s writes %d end %d", was.c_str(), fi, rnd ? "random" : "sequential", writes, end);
	vfs::step = [&]() { S c = vfs::content("/w/t"); SQ_ASSERT(c == was || (may && c == "=" + written), "the file holds %s between the old %s and the new %s", c.c_str(), was.c_str(), written.c_str()); };
	vfs::onRename = [&](const S &, const S &b, int ino) { if (b.find("t.new") == S::npos) SQ_ASSERT(!vfs::I[ino].dirty, "the new file replaces the old one before its data are stored"); };
	faults(sq::depth());
	{ PInOutStream h; PRndFileHandle r; if (!ok([&]() { if (rnd) r = io().openRndFile(P("t"), IFileIOServices::fileOpenWrite, flags); else h = io().openSeqFile(P("t"), IFileIOServices::fileOpenWrite, flags); })) { SQ_ASSERT(vfs::hard || (fi == 2 && stale), "the file cannot be opened"); sq::op("not opened"); SQ_ASSERT(vfs::content("t") == was, "the old file is changed"); leaks(); return; }
		SQ_ASSERT(!(fi == 2 && stale) || vfs::hard, "the temporary file of another writer is taken"); if (rnd) h = PInOutStream(r->getIfcPtr<IInOutStream>()); SQ_ASSERT(h->canWrite() && !h->canRead(), "canWrite %d canRead %d of the file opened for writing", h->canWrite(), h->canRead());
		for (int i = 0; i < writes; i++) { S w = i ? "xy" : "NEW"; if (!ok([&]() { natural k; size_t o = 0; while (o < w.size()) { k = rnd ? r->write(w.data() + o, w.size() - o, written.size()) : h->write(w.data() + o, w.size() - o); SQ_ASSERT(k > 0 && k <= w.size() - o, "write returns %lu", (unsigned long)k); written += w.substr(o, k); o += k; } })) { SQ_ASSERT(vfs::hard, "write fails"); sq::op("write fails"); } }
		if (end == 1 || end == 3) { may = true; closed = ok([&]() { h->closeOutput(); }); sq::op(closed ? "closed" : "closing fails"); SQ_ASSERT(closed || vfs::hard, "closeOutput fails"); if (closed) { SQ_ASSERT(vfs::content("t") == "=" + written, "after closing the file holds %s instead of %s", vfs::content("t").c_str(), written.c_str()); SQ_ASSERT(vfs::resolve("t.new", false) < 0, "the temporary file stays"); } SQ_ASSERT(!h->canWrite(), "closed output can be written"); SQ_ASSERT(!ok([&]() { if (h->write("zz", 2) == 0) throw FileIOError(THISLOCATION, 1, L""); }), "write after closeOutput succeeds"); if (end == 3) ok([&]() { h->closeOutput(); }); }
		S before = vfs::content("t"); if (end == 2) { threw = true; try { PInOutStream x = h; PRndFileHandle y = r; h = nil; r = nil; throw 5; } catch (int) {} }
		else { may = true; h = nil; r = nil; } if (closed) SQ_ASSERT(vfs::content("t") == before, "the file is changed by its release"); }
	S now = vfs::content("t"); if (threw) { SQ_ASSERT(now == was, "the unfinished file replaces the old one"); if (!vfs::hard) SQ_ASSERT(vfs::resolve("t.new", false) < 0, "the discarded file stays"); } else if (!vfs::hard) { SQ_ASSERT(now == "=" + written, "the file holds %s instead of %s", now.c_str(), written.c_str()); SQ_ASSERT(vfs::resolve("t.new", false) < 0, "the temporary file stays"); } else SQ_ASSERT(now == was || now == "=" + written, "the file holds %s", now.c_str()); leaks(); sq::outcome(now); }
// copying
static const char *const FROM[] = {"empty", "one", "many", "lnk", "none", "dir", "broken"};
static void sources() { vfs::put("empty", vfs::REG, "", 0600); vfs::put("one", vfs::REG, "1", 0755); vfs::put("many", vfs::REG, "12345"); vfs::put("lnk", vfs::LNK, "many"); vfs::put("dir", vfs::DIR_); vfs::put("dir/f", vfs::REG, "ff"); vfs::put("broken", vfs::LNK, "nowhere"); vfs::put("old", vfs::REG, "OLDOLDOLD"); vfs::put("oldlnk", vfs::LNK, "old"); }
static const char *const TO[] = {"new", "old", "oldlnk", "dir", "dir/x", "missing/x", "broken", "SAME", "HARD", "SOFT", "xdev/new", "xdev/old", "xdev/SOFT"};
SQ_SCENARIO(copy_file, 1, 2) { vfs::Session ses; sources(); S from = FROM[sq::choose(7)], to = TO[sq::choose(10)]; bool over = sq::choose(2), real = from != "none" && from != "dir" && from != "broken"; if (to == "SAME") to = from; else if (to == "HARD") { to = "hard"; if (real) ::link(from.c_str(), "/w/hard"); } else if (to == "SOFT") { to = "soft"; vfs::put("soft", vfs::LNK, from); }
	std::map<S, S> before = vfs::tree("/"); S src = vfs::content(from); int fi = vfs::resolve(from, true), ti = vfs::resolve(to, true); bool exists = vfs::resolve(to, false) >= 0, same = fi >= 0 && fi == ti; sq::op("copy %s to %s%s", from.c_str(), to.c_str(), over ? " over" : ""); faults(sq::depth()); vfs::step = [&]() { SQ_ASSERT(vfs::content(from) == src, "the source is changed to %s", vfs::content(from).c_str()); };
	bool r = ok([&]() { io().copy(P(from), P(to), over); }); vfs::faults = false; std::map<S, S> after = vfs::tree("/"); S t = vfs::content(to); leaks();
	if (r) { SQ_ASSERT(real, "copying of %s succeeds", from.c_str()); SQ_ASSERT(over || !exists, "the existing file is overwritten"); SQ_ASSERT(t == src, "the copy holds %s instead of %s", t.c_str(), src.c_str()); if (!exists) SQ_ASSERT(vfs::I[vfs::resolve(to, true)].mode == (vfs::I[fi].mode & ~022u), "the mode of the copy is %o", vfs::I[vfs::resolve(to, true)].mode); }
	else { bool can = real && !same && (to == "new" || to == "dir/x" || (over && (to == "old" || to == "oldlnk"))); SQ_ASSERT(vfs::hard || !can, "copying fails"); if (!real || same || (!over && exists)) sameTree(after, before, "after a refused copy"); }
	for (auto &e: before) { int i = vfs::resolve(e.first, false); SQ_ASSERT(i >= 0, "%s is lost", e.first.c_str()); if (vfs::resolve(e.first, true) != ti && i != ti) SQ_ASSERT(after[e.first] == e.second, "%s is changed", e.first.c_str()); } SQ_ASSERT(after.size() <= before.size() + 1, "other files appear"); sq::outcome(S(r ? "1" : "0") + t); }
SQ_SCENARIO(move_file, 1, 2) { vfs::Session ses; sources(); vfs::put("xdev", vfs::DIR_); vfs::put("xdev/old", vfs::REG, "OLDX"); S from = FROM[sq::choose(7)], to = TO[sq::choose(13)]; if (to == "HARD") return sq::skip(); bool over = sq::choose(2); if (to == "SAME") to = from; else if (to == "SOFT") { to = "soft"; vfs::put("soft", vfs::LNK, from); } else if (to == "xdev/SOFT") { to = "xdev/soft"; vfs::put("xdev/soft", vfs::LNK, "../" + from); } vfs::xdev = sq::choose(2);
	if (to == from || from == "lnk") { if (vfs::xdev && to == from) return sq::skip(); }
	std::map<S, S> before = vfs::tree("/"); S src = vfs::content(from), raw = before.count("/w/" + from) ? before["/w/" + from] : S(); bool fromThere = vfs::resolve(from, false) >= 0, toThere = vfs::resolve(to, false) >= 0, dev = vfs::xdev && to.find('/') != S::npos; int ti = vfs::resolve(to, true); sq::op("move %s to %s%s%s", from.c_str(), to.c_str(), over ? " over" : "", dev ? " of another device" : ""); faults(sq::depth());
	vfs::step = [&]() { std::map<S, S> t; bool link = raw.substr(0, 2) == "->"; if (link) t = vfs::tree("/"); SQ_ASSERT(vfs::content(from) == src || vfs::content(to) == src || (link && (t["/w/" + from] == raw || t["/w/" + to] == raw)), "the contents are at neither place: %s and %s", vfs::content(from).c_str(), vfs::content(to).c_str()); };
	bool r = ok([&]() { io().move(P(from), P(to), over); }); vfs::faults = false; vfs::step = nullptr; std::map<S, S> after = vfs::tree("/"); leaks();
	if (r) { if (from != to) { SQ_ASSERT(fromThere, "moving of a missing file succeeds"); SQ_ASSERT(over || !toThere, "the existing file is overwritten"); SQ_ASSERT(vfs::resolve(from, false) < 0, "the source stays"); if (raw.substr(0, 2) == "->" && !dev) SQ_ASSERT(after["/w/" + to] == raw, "the link is changed"); else if (raw != "") SQ_ASSERT(vfs::content(to) == src, "the target holds %s instead of %s", vfs::content(to).c_str(), src.c_str()); } }
	else { bool can = fromThere && from != to && (to == "new" || to == "dir/x" || to == "xdev/new" || (over && (to == "old" || to == "oldlnk" || to == "xdev/old") && from != "dir")); if (from == "dir" && (to == "dir/x" || dev)) can = false; if (dev && from == "broken") can = false; SQ_ASSERT(vfs::hard || !can, "moving fails"); if (fromThere && !vfs::hard) SQ_ASSERT(vfs::content(from) == src, "the source is lost"); if (!over && toThere) sameTree(after, before, "after a refused move"); }
	for (auto &e: before) { S n = e.first.substr(0, e.first.size() - (e.first[e.first.size() - 1] == '/')); if (n.empty()) continue; S f = "/w/" + from; if (n == f || n.substr(0, f.size() + 1) == f + "/" || n == "/w/" + to) continue; int i = vfs::resolve(n, false); if (i == ti && dev) continue; SQ_ASSERT(i >= 0 && after[e.first] == e.second, "%s is changed", n.c_str()); } sq::outcome(S(r ? "1" : "0") + vfs::content(to)); }
// removing
static const int KINDS = 10;
static void entry(const S &at, int kind, const S &name) { S p = at + "/" + name; switch (kind) { case 0: break; case 1: vfs::put(p, vfs::REG, "x"); break; case 2: vfs::put(p, vfs::DIR_); break; case 3: vfs::put(p, vfs::DIR_); vfs::put(p + "/n", vfs::REG, "y"); break; case 4: vfs::put(p, vfs::LNK, "/w/o"); break; case 5: vfs::put(p, vfs::LNK, "/w/o/keep"); break; case 6: vfs::put(p, vfs::LNK, "nowhere"); break; case 7: vfs::put(p, vfs::LNK, ".."); break; case 8: vfs::put(p, vfs::FIFO); break; case 9: vfs::put(p, vfs::DIR_); vfs::put(p + "/\xC5\xBE", vfs::DIR_); vfs::put(p + "/\xC5\xBE/\xE2\x82\xAC", vfs::REG, "z"); vfs::put(p + "/\xC5\xBE/l", vfs::LNK, "/w/o"); break; } }
static void removing(int budget, int maxEntries) { vfs::Session ses; vfs::put("o", vfs::DIR_); vfs::put("o/keep", vfs::REG, "K"); vfs::put("o/sub", vfs::DIR_); static const char *const dn[] = {"d", "d\xC3\xA9", "d/", "./d", "/w/d"}; S d = dn[sq::choose(5)]; bool uni = d == dn[1]; S plain = uni ? d : S("d"); std::map<S, S> base = vfs::tree("/"); vfs::put(plain, vfs::DIR_); static const char *const names[] = {"a", "\xF0\x9D\x84\x9E", ".h"}; for (int i = 0; i < maxEntries; i++) entry(plain, sq::choose(KINDS), names[i]);
	bool empty = vfs::I[vfs::resolve(plain, false)].ents.empty(), rec = sq::choose(2); vfs::useTypes = sq::choose(2); std::map<S, S> before = vfs::tree("/"); sq::op("removeFolder %s%s: %s", d.c_str(), rec ? " recursive" : "", vfs::show(vfs::tree("/w/" + plain)).c_str()); faults(budget); bool r = ok([&]() { io().removeFolder(P(d), rec); }); vfs::faults = false; std::map<S, S> after = vfs::tree("/");
	SQ_ASSERT(r || vfs::hard || (!rec && !empty), "the folder is not removed"); SQ_ASSERT(!r || rec || empty, "a folder with files is removed"); if (r) sameTree(after, base, "after removing"); else { for (auto &e: base) SQ_ASSERT(after.count(e.first) && after[e.first] == e.second, "%s outside of the folder is removed", e.first.c_str()); if (!rec) sameTree(after, before, "after a refused removal"); } leaks(); sq::outcome(vfs::show(after)); }
SQ_SCENARIO(remove_folder, 2, 3) { removing(0, sq::depth()); }
SQ_SCENARIO(remove_folder_faults, 1, 2) { removing(sq::depth(), 2); }
SQ_SCENARIO(remove_links, 1, 1) { vfs::Session ses; vfs::put("o", vfs::DIR_); vfs::put("o/keep", vfs::REG, "K"); static const int k[] = {1, 2, 4, 5, 6, 8}; int kind = k[sq::choose(6)]; entry("/w", kind, "e"); std::map<S, S> before = vfs::tree("/"); int how = sq::choose(3); sq::op("%s of kind %d", how == 0 ? "removeFolder" : how == 1 ? "remove" : "removeFolder recursive", kind); bool r = ok([&]() { if (how == 1) io().remove(P("e")); else io().removeFolder(P("e"), how == 2); }); std::map<S, S> after = vfs::tree("/"); if (how == 1 || kind == 2) { SQ_ASSERT(r, "the entry is not removed"); before.erase("/w/e"); before.erase("/w/e/"); } else SQ_ASSERT(!r, "a link or a file is removed as a folder"); sameTree(after, before, "after the removal"); leaks(); }
// creating folders
SQ_SCENARIO(create_folder, 2, 3) { vfs::Session ses; static const char *const comp[] = {"a", "b\xC3\xA9", "..", "."}; static const char *const start[] = {"", "/w/", "/", "x/"}; static const char *const sep[] = {"/", "//"}; S p = start[sq::choose(4)]; int n = 1 + sq::choose(sq::depth()); for (int i = 0; i < n; i++) { p += comp[sq::choose(4)]; if (i < n - 1) p += sep[sq::choose(2)]; } static const char *const tail[] = {"", "/", "//"}; p += tail[sq::choose(3)];
	switch (sq::choose(5)) { case 1: vfs::put("a", vfs::DIR_); break; case 2: vfs::put("a", vfs::REG, "f"); break; case 3: vfs::put("a", vfs::LNK, "o"); vfs::put("o", vfs::DIR_); break; case 4: vfs::put("a", vfs::LNK, "nowhere"); break; } bool parents = sq::choose(2);
	bool impossible = false, exists; std::vector<S> add; std::map<S, S> want; { std::vector<vfs::Ino> save = vfs::I; exists = vfs::resolve(p, true) >= 0; if (parents) { for (size_t i = 1; i <= p.size() && !impossible; i++) if (i == p.size() || p[i] == '/') { S q = p.substr(0, i); int k = vfs::resolve(q, true); if (k >= 0) { if (vfs::I[k].type != vfs::DIR_) impossible = true; } else if (::mkdir(q.c_str(), 0777) != 0) impossible = true; } } else { S q = p; impossible = ::mkdir(q.c_str(), 0777) != 0; } want = vfs::tree("/"); vfs::I = save; }
	std::map<S, S> before = vfs::tree("/"); int race = 0; sq::op("createFolder %s%s", p.c_str(), parents ? " with parents" : ""); sq::setDeviations(1); vfs::raceMkdir = [&](const S &q) { if (sq::deviate(2)) { S z = q; while (z.size() > 1 && z[z.size() - 1] == '/') z.resize(z.size() - 1); if (vfs::put(z, vfs::DIR_) >= 0) race++; sq::op("[%s created by another process]", q.c_str()); } return false; };
	if (sq::choose(2)) vfs::faults = true; bool r = ok([&]() { io().createFolder(P(p), parents); }); std::map<S, S> after = vfs::tree("/"); int i = vfs::resolve(p, true); if (r) { SQ_ASSERT(i >= 0 && vfs::I[i].type == vfs::DIR_, "the folder does not exist"); SQ_ASSERT(!impossible || (parents && exists), "an impossible folder is created"); sameTree(after, want, "after creating"); SQ_ASSERT(parents || !race, "creating of an existing folder succeeds"); } else { SQ_ASSERT(impossible || vfs::hard || (race && !parents), "the folder is not created"); if (!parents && !race) sameTree(after, before, "after a refused creation"); for (auto &e: before) SQ_ASSERT(after.count(e.first) && after[e.first] == e.second, "%s is changed", e.first.c_str()); } sq::outcome(vfs::show(after)); }
// reading folders
struct Ent { const char *name; vfs::Type type; const char *data; unsigned mode; };
static S longName(255, 'n');
static const Ent ENTS[] = { {"f", vfs::REG, "abc", 0644}, {".h", vfs::REG, "", 0444}, {"\xC3\xA9\xE2\x82\xAC", vfs::DIR_, "", 0755}, {"\xF0\x9D\x84\x9Ex", vfs::REG, "q", 0200}, {"lf", vfs::LNK, "f", 0777}, {"ld", vfs::LNK, "/w/o", 0777}, {"lb", vfs::LNK, "nowhere", 0777}, {"p", vfs::FIFO, "", 0600}, {"d", vfs::DIR_, "", 0755}, {longName.c_str(), vfs::REG, "L", 0}, {"..x", vfs::REG, "2", 0644} };
static void checkEntry(IFolderIterator &it, const S &folder, const S &name, bool info) { int i = vfs::resolve(folder + "/" + name, false), t = vfs::resolve(folder + "/" + name, true); const vfs::Ino &n = vfs::I[i]; SQ_ASSERT(it.link == (n.type == vfs::LNK), "the link flag of %s is %d", name.c_str(), it.link); SQ_ASSERT(it.hidden == (name[0] == '.'), "the hidden flag of %s is %d", name.c_str(), it.hidden); IFolderIterator::DirEntryType e = t < 0 ? IFolderIterator::unknown : vfs::I[t].type == vfs::REG ? IFolderIterator::file : vfs::I[t].type == vfs::DIR_ ? IFolderIterator::directory : IFolderIterator::seqfile; SQ_ASSERT(it.type == e, "the type of %s is %d instead of %d", name.c_str(), (int)it.type, (int)e);
	S full = U(it.getFullPath()); SQ_ASSERT(vfs::resolve(full, false) == i, "the full path of %s is %s", name.c_str(), full.c_str()); if (t >= 0) { SQ_ASSERT(it.getSize() == vfs::I[t].data.size(), "the size of %s is %lu", name.c_str(), (unsigned long)it.getSize()); unsigned m = vfs::I[t].mode; IFileIOServices::FileOpenMode want = (m & 0600) == 0600 ? IFileIOServices::fileOpenReadWrite : m & 0400 ? IFileIOServices::fileOpenRead : m & 0200 ? IFileIOServices::fileOpenWrite : IFileIOServices::fileAccessible; SQ_ASSERT(it.getAllowedOpenMode() == want, "the allowed mode of %s is %d instead of %d", name.c_str(), (int)it.getAllowedOpenMode(), (int)want); SQ_ASSERT(it.getModifiedTime() == TimeStamp::fromUnix(vfs::I[t].mtime, 123), "the time of %s", name.c_str()); (void)info; } }
SQ_SCENARIO(iterate_folder, 2, 3) { vfs::Session ses; vfs::put("o", vfs::DIR_); vfs::put("o/i", vfs::REG, "I"); static const char *const dn[] = {"d", "d\xC3\xA9\xE2\x82\xAC", "d/", "", ".", "/w/d"}; S d = dn[sq::choose(6)], plain = d == "" || d == "." ? S("/z") : d == "d/" ? S("d") : d; vfs::put(plain, vfs::DIR_); if (plain == "/z") vfs::cwd = "/z"; int dino = vfs::resolve(plain, false); std::map<S, int> expect; for (int i = 0; i < sq::depth(); i++) { int k = sq::choose((int)(sizeof ENTS / sizeof *ENTS) + 1); if (k == (int)(sizeof ENTS / sizeof *ENTS)) continue; vfs::put(plain + "/" + ENTS[k].name, ENTS[k].type, ENTS[k].data, ENTS[k].mode); expect[ENTS[k].name]; if (!strcmp(ENTS[k].name, "d")) vfs::put(plain + "/d/in\xC3\xA9", vfs::REG, "in"); } vfs::useTypes = sq::choose(2); sq::op("folder %s: %s", d.c_str(), vfs::show(vfs::tree(plain[0] == '/' ? plain : "/w/" + plain)).c_str());
	{ PFolderIterator it = io().openFolder(P(d)); for (int round = 0; round < 2; round++) { std::map<S, int> got; while (it->getNext()) { S n = U(it->entryName); sq::op("entry %s", n.c_str()); SQ_ASSERT(expect.count(n) && !got[n]++, "the entry %s is not in the folder or comes again", n.c_str()); SQ_ASSERT(vfs::resolve(U(it->source), true) == dino, "the source is %s", U(it->source).c_str()); checkEntry(*it, plain, n, false); if (it->type == IFolderIterator::directory) { PFolderIterator in = it->openFolder(); int k = 0; while (in->getNext()) { k++; S m = U(in->entryName); checkEntry(*in, plain + "/" + n, m, false); } SQ_ASSERT(k == (int)vfs::I[vfs::resolve(plain + "/" + n, true)].ents.size(), "%d entries of the inner folder", k); } else SQ_ASSERT(!ok([&]() { it->openFolder(); }), "a file is opened as a folder"); } SQ_ASSERT(got.size() == expect.size(), "%zu entries instead of %zu", got.size(), expect.size()); it->rewind(); } } leaks(); }
SQ_SCENARIO(iterate_faults, 1, 2) { vfs::Session ses; vfs::put("d", vfs::DIR_); for (int i = 0; i < 3; i++) entry("d", 1 + i * 2, S(1, 'a' + i)); vfs::useTypes = sq::choose(2); int n = 0; faults(sq::depth()); bool r = ok([&]() { PFolderIterator it = io().openFolder(P("d")); while (it->getNext()) { n++; } }); SQ_ASSERT(r ? n == 3 : vfs::hard, "%d entries without an error", n); leaks(); }
// an entry removed, copied or moved through the iterator
SQ_SCENARIO(iterator_actions, 1, 1) { vfs::Session ses; vfs::put("o", vfs::DIR_); vfs::put("o/keep", vfs::REG, "K"); vfs::put("d", vfs::DIR_); int kind = 1 + sq::choose(KINDS - 1); entry("d", kind, "\xC3\xA9"); bool info = sq::choose(2); int act = sq::choose(4); vfs::useTypes = sq::choose(2); std::map<S, S> before = vfs::tree("/"); sq::op("kind %d action %d%s", kind, act, info ? " of getFileInfo" : ""); S n = "d/\xC3\xA9"; bool there = vfs::resolve(n, true) >= 0; if (info && !there) return sq::skip(); PFolderIterator it = info ? io().getFileInfo(P(n)) : io().openFolder(P("d")); if (!info) SQ_ASSERT(it->getNext(), "no entry"); bool dir = kind == 2 || kind == 3 || kind == 9;
	if (act == 0 || act == 1) { bool r = ok([&]() { it->remove(act); }); bool can = !dir || act || kind == 2; SQ_ASSERT(r == can, "removing %s", r ? "succeeds" : "fails"); std::map<S, S> after = vfs::tree("/"), want = before; if (can) for (auto i = want.begin(); i != want.end();) if (i->first.substr(0, 3 + n.size()) == "/w/" + n) want.erase(i++); else ++i; sameTree(after, want, "after removing"); }
	else { bool r = ok([&]() { if (act == 2) it->copy(P("t"), false); else it->move(P("t"), false); }); if (kind == 1) SQ_ASSERT(r && vfs::content("t") == "=x", "the file is not transferred"); if (kind == 5) SQ_ASSERT(r && vfs::content("t") == "=K", "the linked file is not transferred"); SQ_ASSERT(vfs::content("o/keep") == "=K", "a linked file is changed"); if (act == 3) SQ_ASSERT(r && vfs::resolve(n, false) < 0 && vfs::resolve("t", false) >= 0, "the entry is not moved"); } it = nil; leaks(); }
SQ_SCENARIO(file_info, 1, 1) { vfs::Session ses; vfs::put("o", vfs::DIR_); vfs::put("o/i", vfs::REG, "I"); vfs::put("d\xC3\xA9", vfs::DIR_); int k = sq::choose((int)(sizeof ENTS / sizeof *ENTS)); const Ent &e = ENTS[k]; S folder = sq::choose(2) ? "d\xC3\xA9" : "/w/d\xC3\xA9"; vfs::put("d\xC3\xA9/f", vfs::REG, "abc"); vfs::put(folder + "/" + e.name, e.type, e.data, e.mode); S full = folder + "/" + e.name; bool bare = sq::choose(2); if (bare) { vfs::cwd = "/w/d\xC3\xA9"; full = e.name; folder = "."; } bool slash = e.type == vfs::DIR_ && sq::choose(2); if (slash) full += "/"; faults(0); sq::op("getFileInfo %s", full.c_str()); PFolderIterator it; bool r = ok([&]() { it = io().getFileInfo(P(full)); }); bool exists = vfs::resolve(full, true) >= 0; SQ_ASSERT(r == exists, "getFileInfo %s", r ? "succeeds" : "fails"); if (!r) return; S n = U(it->entryName); SQ_ASSERT(n == e.name, "the name is %s instead of %s", n.c_str(), e.name); int t = vfs::resolve(full, true), first = t < 0 ? 0 : sq::choose(2); if (first == 1) SQ_ASSERT(it->getModifiedTime() == TimeStamp::fromUnix(vfs::I[t].mtime, 123), "the time, asked first"); checkEntry(*it, bare ? "/w/d\xC3\xA9" : folder, e.name, true); SQ_ASSERT(!it->getNext(), "there is another entry"); it = nil; leaks(); }
// calls of an open file against a string
SQ_SCENARIO(file_calls, 3, 4) { vfs::Session ses; static const OpenFlags::Type oc = OpenFlags::create, ot = OpenFlags::truncate, fl[] = {0, oc, oc | ot, OpenFlags::newFile, OpenFlags::newFile | oc, OpenFlags::append | oc, OpenFlags::deleteOnClose | oc, ot}; int mode = 1 + sq::choose(3), fi = sq::choose(8); bool there = sq::choose(2); if (there) vfs::put("f", vfs::REG, "0123456"); sq::op("open mode %d flags %d%s", mode, fi, there ? " existing" : ""); PRndFileHandle h; bool can = (fi == 3 || fi == 4) ? !there : there || (fl[fi] & oc); if (mode == 1 && (fi == 2 || fi == 7)) return sq::skip(); bool r = ok([&]() { h = io().openRndFile(P("f"), (IFileIOServices::FileOpenMode)mode, fl[fi]); }); SQ_ASSERT(r == can, "opening %s", r ? "succeeds" : "fails"); if (!r) { SQ_ASSERT(vfs::content("f") == (there ? "=0123456" : "<none>"), "the file is changed"); leaks(); return; }
	S m = there && !(fl[fi] & ot) ? "0123456" : ""; size_t pos = 0; bool app = fi == 5, closed = false, rd = mode & 1, wr = mode & 2; PInOutStream s(h->getIfcPtr<IInOutStream>()); faults(1); int d = sq::depth();
	for (int i = 0; i < d; i++) { SQ_ASSERT(vfs::content("f") == "=" + m, "the file holds %s instead of %s", vfs::content("f").c_str(), m.c_str()); if (vfs::hard) break; bool bad = false; char b[16]; memset(b, '#', sizeof b);
		auto want = [&](const char *what, natural k, natural cap, size_t at) { size_t av = at < m.size() ? m.size() - at : 0; if (av > cap) av = cap; SQ_ASSERT(k <= av && (k > 0 || !av), "%s returns %lu of %zu bytes", what, (unsigned long)k, av); SQ_ASSERT(S(b, k) == m.substr(k ? at : 0, k), "%s returns other bytes", what); for (size_t j = k; j < sizeof b; j++) SQ_ASSERT(b[j] == '#', "%s stores more than it returns", what); };
		int op = sq::choose(9); try { switch (op) {
		case 0: { sq::op("read"); bad = !rd; natural n = 1 + sq::choose(2) * 3, k = s->read(b, n); want("read", k, n, pos); pos += k; break; }
		case 1: { sq::op("peek"); bad = !rd; natural k = s->peek(b, 3); want("peek", k, 3, pos); break; }
		case 2: { sq::op("write"); bad = !wr || closed; S w = i % 2 ? "ab" : "XYZ"; natural k = s->write(w.data(), w.size()); SQ_ASSERT(k > 0 && k <= w.size(), "write returns %lu", (unsigned long)k); if (app) pos = m.size(); if (m.size() < pos + k) m.resize(pos + k); m.replace(pos, k, w, 0, k); pos += k; break; }
		case 3: { size_t o = sq::choose(4) * 3; sq::op("read at %zu", o); bad = !rd; natural k = h->read(b, 4, o); want("read", k, 4, o); break; }
		case 4: { size_t o = sq::choose(3) * 4; sq::op("write at %zu", o); bad = !wr || closed; S w = "pq"; natural k = h->write(w.data(), 2, o); SQ_ASSERT(k > 0 && k <= 2, "write returns %lu", (unsigned long)k); if (app) o = m.size(); if (m.size() < o + k) m.resize(o + k); m.replace(o, k, w, 0, k); break; }
		case 5: { size_t n = sq::choose(3) * 4; sq::op("setSize %zu", n); bad = !wr || closed; h->setSize(n); m.resize(n); break; }
		case 6: { sq::op("size"); if (closed && !rd) break; SQ_ASSERT(h->size() == m.size(), "the size is %lu instead of %zu", (unsigned long)h->size(), m.size()); SQ_ASSERT(s->canRead() == (rd && pos < m.size()), "canRead is %d at %zu of %zu", s->canRead(), pos, m.size()); SQ_ASSERT(s->canWrite() == (wr && !closed), "canWrite is %d", s->canWrite()); break; }
		case 7: if (wr && !closed) { sq::op("closeOutput"); closed = true; s->closeOutput(); SQ_ASSERT(!s->canWrite(), "closed output can be written"); } break;
		case 8: if (wr && !closed) { sq::op("flush"); s->flush(); SQ_ASSERT(!vfs::I[vfs::resolve("f", true)].dirty, "data are not stored by flush"); } break; }
		SQ_ASSERT(!bad, "an impossible call succeeds"); } catch (const Exception &) { SQ_ASSERT(bad || vfs::hard, "the call fails"); } }
	SQ_ASSERT(vfs::content("f") == "=" + m, "the file holds %s instead of %s", vfs::content("f").c_str(), m.c_str()); vfs::faults = false; s = nil; h = nil; SQ_ASSERT(vfs::content("f") == (fi == 6 ? "<none>" : "=" + m), "after release the file holds %s", vfs::content("f").c_str()); leaks(); sq::outcome(m); }
SQ_SCENARIO(open_creates_folder, 1, 2) { vfs::Session ses; static const char *const p[] = {"x/y/f", "x//f", "/w/\xC3\xA9/f", "f", "x/../f"}; S f = p[sq::choose(5)]; OpenFlags::Type fl = (sq::choose(2) ? OpenFlags::createFolder : 0) | (sq::choose(2) ? OpenFlags::create : 0) | (sq::choose(2) ? OpenFlags::commitOnClose : 0); sq::op("open %s flags %lx", f.c_str(), (unsigned long)fl); faults(sq::depth()); bool made = fl & (OpenFlags::create | OpenFlags::commitOnClose); bool can = made && (f == "f" || (fl & OpenFlags::createFolder)); bool r = ok([&]() { SeqFileOutput o(P(f), fl); o.blockWrite("hi", 2, true); }); SQ_ASSERT(!r || can, "the file is created"); SQ_ASSERT(r || !can || vfs::hard, "the file is not created"); if (r && !vfs::hard) SQ_ASSERT(vfs::content(f) == "=hi", "the file holds %s", vfs::content(f).c_str()); leaks(); }
// links
SQ_SCENARIO(make_link, 1, 2) { vfs::Session ses; sources(); static const char *const at[] = {"new", "old", "oldlnk", "broken", "missing/x", "dir", "dir/x"}; S l = at[sq::choose(7)], t = sq::choose(2) ? "many" : "/nowhere/\xC3\xA9"; bool over = sq::choose(2), there = vfs::resolve(l, false) >= 0; std::map<S, S> before = vfs::tree("/"); sq::op("link %s to %s%s", l.c_str(), t.c_str(), over ? " over" : ""); faults(sq::depth()); bool r = ok([&]() { io().link(P(l), P(t), over); }); std::map<S, S> after = vfs::tree("/"); if (r) { SQ_ASSERT(over || !there, "the existing file is replaced"); std::map<S, S> want = before; want["/w/" + l] = "->" + t; sameTree(after, want, "after linking"); } else { SQ_ASSERT(vfs::hard || (there && (!over || l == "dir")) || l == "missing/x", "linking fails"); if (!over || !there) sameTree(after, before, "after a refused link"); } }
// prefixes
struct NoHandler { char c; };
struct Svc: public AbstractFileIOService { typedef FileOpenMode M; typedef OpenFlags::Type F; virtual PInOutStream openSeqFile(ConstStrW, M, F) { throw 1; } virtual PRndFileHandle openRndFile(ConstStrW, M, F) { throw 1; } virtual bool canOpenFile(ConstStrW, M) const { return false; } virtual PFolderIterator openFolder(ConstStrW) { throw 1; } virtual PFolderIterator getFileInfo(ConstStrW) { throw 1; } virtual void createFolder(ConstStrW, bool) {} virtual void removeFolder(ConstStrW, bool) {} virtual void copy(ConstStrW, ConstStrW, bool) {} virtual void move(ConstStrW, ConstStrW, bool) {} virtual void link(ConstStrW, ConstStrW, bool) {} virtual void remove(ConstStrW) {} virtual PMappedFile mapFile(ConstStrW, M) { throw 1; } virtual PInOutStream openStdFile(StdFile) { throw 1; } virtual void createPipe(PInputStream &, POutputStream &) {} virtual PTemporaryFile createTempFile(ConstStrW, bool) { throw 1; } virtual PInOutStream openSeqFile(const void *, size_t, M) { throw 1; } virtual PRndFileHandle openRndFile(const void *, size_t, M) { throw 1; } virtual String findFile(ConstStrW, ConstStrW, natural) { return String(); } virtual String findExec(ConstStrW) { return String(); } };
SQ_SCENARIO(handlers, 5, 6) { static const wchar_t *const pre[] = {L"q", L"qa", L"qab", L"qb", L"r"}; static NoHandler obj[3]; std::map<std::wstring, IFileIOHandler *> m; int d = sq::depth(); Svc svc;
	for (int i = 0; i < d; i++) { uint64_t h = i; for (auto &e: m) { h = h * 31 + (uint64_t)((NoHandler *)(void *)e.second - obj) + 7; for (wchar_t c: e.first) h = h * 131 + c; } if (sq::seen(h)) return; int k = sq::choose(5), o = sq::choose(3); IFileIOHandler *n = o ? (IFileIOHandler *)(void *)&obj[o] : 0, *was = m.count(pre[k]) ? m[pre[k]] : 0; sq::op("setHandler %ls %d", pre[k], o); IFileIOHandler *g = svc.setHandler(pre[k], n); SQ_ASSERT((void *)g == (void *)was, "the previous handler is wrong"); if (n) m[pre[k]] = n; else m.erase(pre[k]);
		static const wchar_t *const ask[] = {L"", L"q", L"qa", L"qab", L"qabc", L"qb", L"qac", L"rr", L"s", L"Q"}; for (auto a: ask) { IFileIOHandler *e = 0; size_t best = 0; for (auto &x: m) if (std::wstring(a).compare(0, x.first.size(), x.first) == 0 && x.first.size() > best) { best = x.first.size(); e = x.second; } SQ_ASSERT((void *)svc.findHandler(a) == (void *)e, "the handler of %ls is wrong", a); } } }
SQ_SCENARIO(find_file, 3, 4) { vfs::Session ses; vfs::put("a", vfs::DIR_); vfs::put("b\xC3\xA9", vfs::DIR_); vfs::put("c", vfs::DIR_); vfs::put("a/x", vfs::REG, "1"); vfs::put("b\xC3\xA9/x", vfs::REG, "2"); vfs::put("x", vfs::REG, "3"); static const char *const el[] = {"a", "b\xC3\xA9/", "c", "", "/w", "none"}; S list; std::vector<S> found; int n = 1 + sq::choose(sq::depth()); for (int i = 0; i < n; i++) { S e = el[sq::choose(6)]; if (i) list += ":"; list += e; S p = e.empty() ? S("x") : e[e.size() - 1] == '/' ? e + "x" : e + "/x"; if (vfs::resolve(p, true) >= 0) found.push_back(p); } if (list.empty()) return sq::skip(); natural pos = sq::choose(4); sq::op("findFile in %s at %lu", list.c_str(), (unsigned long)pos); size_t k = pos < 2 ? 0 : pos - 1; S want = k < found.size() ? found[k] : S("x"), got = U(io().findFile(P("x"), P(list), pos)); if (list[list.size() - 1] == ':' && k + 1 >= found.size()) return; SQ_ASSERT(got == want, "found %s instead of %s", got.c_str(), want.c_str()); }
// pipes
SQ_SCENARIO(pipes, 4, 5) { PInputStream in; POutputStream out; io().createPipe(in, out); S q; bool eof = false; int d = sq::depth(); for (int i = 0; i < d; i++) { char b[300]; memset(b, '#', sizeof b); static const int len[] = {1, 5, 140, 300}; switch (sq::choose(6)) {
		case 0: if (!eof) { S w; int n = len[sq::choose(4)]; for (int j = 0; j < n; j++) w += (char)('a' + (i * 7 + j) % 26); sq::op("write %d", n); SQ_ASSERT(out->write(w.data(), n) == (natural)n, "write"); q += w; } break;
		case 1: { int n = len[sq::choose(4)]; if (q.empty() && !eof) break; sq::op("read %d", n); natural k = in->read(b, n); SQ_ASSERT(k <= q.size() && k <= (natural)n && (k || q.empty()), "read returns %lu of %zu", (unsigned long)k, q.size()); SQ_ASSERT(S(b, k) == q.substr(0, k), "other bytes are read"); q.erase(0, k); break; }
		case 2: { int n = len[sq::choose(3)]; if (q.empty() && !eof) break; sq::op("peek %d", n); natural k = in->peek(b, n); SQ_ASSERT(k <= q.size() && k <= (natural)n && (k || q.empty()), "peek returns %lu of %zu", (unsigned long)k, q.size()); SQ_ASSERT(S(b, k) == q.substr(0, k), "other bytes are peeked"); break; }
		case 3: if (q.empty() && !eof) break; sq::op("canRead"); SQ_ASSERT(in->canRead() == !q.empty(), "canRead is %d of %zu bytes", in->canRead(), q.size()); break;
		case 4: sq::op("close"); if (!eof) { out->closeOutput(); SQ_ASSERT(!out->canWrite(), "canWrite after closeOutput"); } eof = true; break;
		case 5: if (!q.empty()) { sq::op("readAll %zu", q.size() > 200 ? 200 : q.size()); natural n = q.size() > 200 ? 200 : q.size(), k = in->readAll(b, n); SQ_ASSERT(k == n && S(b, k) == q.substr(0, k), "readAll"); q.erase(0, k); } break; } } out = nil; char b[300]; natural k; S rest; while ((k = in->read(b, 300)) != 0) rest.append(b, k); SQ_ASSERT(rest == q, "the rest of the pipe differs"); SQ_ASSERT(!in->canRead() && in->peek(b, 1) == 0, "the pipe is not at its end"); }
// temporary files
SQ_SCENARIO(temp_files, 4, 5) { vfs::Session ses; vfs::put("keep", vfs::REG, "K"); std::vector<PTemporaryFile> t; std::vector<S> name; std::map<S, S> extra; int d = sq::depth(); { PTemporaryFile probe = io().createTempFile(P("p")); S n = U(probe->getFilename()); probe = nil; SQ_ASSERT(vfs::resolve(n, false) < 0, "the temporary file stays"); if (sq::choose(2)) { size_t c = n.rfind('~'); S next = n.substr(0, c + 1) + std::to_string(atoi(n.c_str() + c + 1) + 1); vfs::put(next, vfs::REG, "FOREIGN"); extra[next] = "=FOREIGN"; sq::op("%s exists", "the next name"); } }
	for (int i = 0; i < d; i++) switch (sq::choose(5)) {
		case 0: case 1: { if (t.size() >= 2) break; sq::op("create"); PTemporaryFile f = io().createTempFile(P("p")); S n = U(f->getFilename()); for (auto &o: name) SQ_ASSERT(o != n, "two temporary files have the same name"); SQ_ASSERT(!extra.count(n), "an existing file is used"); S w(1, 'a' + i); f->getStream()->write(w.data(), 1); SQ_ASSERT(vfs::content(n) == "=" + w, "the temporary file"); t.push_back(f); name.push_back(n); break; }
		case 2: if (!t.empty()) { sq::op("release"); S n = name.back(); SQ_ASSERT(vfs::resolve(n, false) >= 0, "the file disappeared"); t.pop_back(); name.pop_back(); SQ_ASSERT(vfs::resolve(n, false) < 0, "the temporary file stays"); } break;
		case 3: if (!t.empty()) { sq::op("rename"); S n = "/tmp/r" + std::to_string(i), c = vfs::content(name.back()); t.back()->rename(P(n), false); SQ_ASSERT(vfs::content(n) == c && vfs::resolve(name.back(), false) < 0, "renaming"); name.back() = n; } break;
		case 4: if (!t.empty()) { sq::op("detach"); S n = name.back(); t.back()->detach(); t.pop_back(); name.pop_back(); SQ_ASSERT(vfs::resolve(n, false) >= 0, "the detached file is removed"); extra[n] = vfs::content(n); } break; }
	t.clear(); std::map<S, S> now = vfs::tree("/tmp"); extra["/tmp/"] = ""; sameTree(now, extra, "at the end"); SQ_ASSERT(vfs::content("keep") == "=K", "another file"); leaks(); }
SQ_SCENARIO(named_temp_file, 1, 1) { vfs::Session ses; bool there = sq::choose(2); if (there) vfs::put("/tmp/nm", vfs::REG, "FOREIGN"); PTemporaryFile f = io().createTempFile(P("nm"), false); SQ_ASSERT(U(f->getFilename()) == "/tmp/nm", "the name"); if (there) { SQ_ASSERT(f->getStream() == nil, "an existing file is opened"); SQ_ASSERT(vfs::content("/tmp/nm") == "=FOREIGN", "an existing file is changed"); f->detach(); } else { SQ_ASSERT(f->getStream() != nil, "the stream is closed"); f->getStream()->write("x", 1); SQ_ASSERT(vfs::content("/tmp/nm") == "=x", "the file"); } f = nil; if (!there) SQ_ASSERT(vfs::resolve("/tmp/nm", false) < 0, "the temporary file stays"); leaks(); }
