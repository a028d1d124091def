// C45: exceptions: every class passed on in every way keeps type, message, values, location and reasons; every sequence of copying and attaching reasons
#include <cstring>
#include <cerrno>
#include <deque>
#include <functional>
#include <vector>
#include <string>
#include <stdexcept>
#include "lightspeed/base/exceptions/badcast.h"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/interface.tcc"
#include "lightspeed/base/exceptions/invalidParamException.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/outofmemory.h"
#include "lightspeed/base/exceptions/pointerException.h"
#include "lightspeed/base/exceptions/rangeException.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/systemException.h"
#include "lightspeed/base/exceptions/unsupportedFeature.h"
#include "lightspeed/base/exceptions/utf.h"
#include "lightspeed/base/exceptions/waitException.h"
#include "lightspeed/base/streams/netio.h"
#include "lightspeed/base/exceptions/netExceptions.h"
#include "lightspeed/base/containers/map.h"
#include "lightspeed/base/exceptions/serializerException.h"
#include "lightspeed/base/exceptions/stringException.h"
#include "lightspeed/base/exceptions/httpStatusException.h"
#include "lightspeed/base/exceptions/invalidNumberFormat.h"
#include "lightspeed/base/exceptions/canceledException.h"
#include "lightspeed/base/exceptions/container.h"
#include "lightspeed/base/exceptions/genexcept.h"
#include "lightspeed/base/exceptions/exceptionBuilder.h"
#include "lightspeed/base/exceptions/throws.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "seq.h"
using namespace LightSpeed; typedef std::string S; typedef std::vector<S> VS;
namespace { // classes made with the tools the library gives for making them
const char *ownText = "own %1 and %2"; const char *ownText0 = "own text";
typedef GenException<ownText0> Own0; typedef GenException2<ownText, natural, StringA> Own2;
LIGHTSPD_DEF_EXCEPTION(Built1, Exception) LIGHTSPD_EXCEPTION_PAR_1(Built1, String, Name) LIGHTSPD_EXCEPTION_MSG(msg) { msg("built %1") << valName; } };
LIGHTSPD_DEF_EXCEPTION(Built4, Exception) LIGHTSPD_EXCEPTION_PAR_4(Built4, natural, A, natural, B, unsigned int, C, natural, D) LIGHTSPD_EXCEPTION_MSG(msg) { msg("built %1 %2 %3 %4") << valA << valB << valC << valD; } };
static S utf(const String &s) { StringA a = s.getUtf8(); return S(a.data(), a.length()); }
static const ProgramLocation loc("place.cpp", 1234, "function");
static S longName; static String L(const S &s) { return String(ConstStrA(s.data(), s.size())); }
struct Case { const char *name; std::function<Exception *()> make; VS parts; std::function<bool(const Exception &)> values; };
static std::deque<Case> cases;
template<class T> static const T &as(const Exception &e) { return dynamic_cast<const T &>(e); }
#define CASE(name, expr, values, ...) cases.push_back(Case{ name, []() -> Exception * { return expr; }, VS{ __VA_ARGS__ }, [](const Exception &e) -> bool { (void)e; return values; } })
static S sys(int e) { return strerror(e); }
static void fill() {
	if (!cases.empty()) return;
	longName = "/a very long name/" + S(3000, 'n') + "/end";
	CASE("BadCastException", new BadCastException(loc, typeid(int), typeid(S)), as<BadCastException>(e).getSource() == typeid(int) && as<BadCastException>(e).getTarget() == typeid(S), typeid(int).name(), typeid(S).name());
	CASE("FileOpenError", new FileOpenError(loc, ENOENT, L("/some/file")), utf(String(as<FileIOException>(e).getFilename())) == "/some/file" && as<ErrNoException>(e).getErrNo() == ENOENT && dynamic_cast<const IOException *>(&e), "/some/file", "2", sys(ENOENT));
	CASE("FileOpenError(long)", new FileOpenError(loc, EACCES, L(longName)), as<FileOpenError>(e).getFilename().length() == longName.size(), longName, sys(EACCES));
	CASE("FileIOError", new FileIOError(loc, EIO, L("100%1 %d")), as<ErrNoException>(e).getErrNo() == EIO, "100%1 %d", sys(EIO));
	CASE("PipeOpenError", new PipeOpenError(loc, EMFILE), as<FileOpenError>(e).getErrNo() == EMFILE, sys(EMFILE));
	CASE("FileMsgException", new FileMsgException(loc, EPERM, L("name"), L("explanation")), utf(String(as<FileMsgException>(e).getExcpMessage())) == "explanation" && utf(String(as<FileMsgException>(e).getFilename())) == "name", "explanation", "name", sys(EPERM));
	CASE("FolderCreationException", new FolderCreationException(loc, EEXIST, L("dir")), as<FileIOException>(e).getErrNo() == EEXIST, "dir", sys(EEXIST));
	CASE("FileDeletionException", new FileDeletionException(loc, EBUSY, L("f")), as<FileIOException>(e).getErrNo() == EBUSY, "f", sys(EBUSY));
	CASE("FolderNotEmptyException", new FolderNotEmptyException(loc, ENOTEMPTY, L("d")), as<FileDeletionException>(e).getErrNo() == ENOTEMPTY, "d", sys(ENOTEMPTY));
	CASE("FileCopyException", new FileCopyException(loc, EXDEV, L("from"), L("to")), utf(String(as<FileCopyException>(e).getSource())) == "from" && utf(String(as<FileCopyException>(e).getTarget())) == "to", "from", "to", sys(EXDEV));
	CASE("ErrNoException", new ErrNoException(loc, EINVAL), as<ErrNoException>(e).getErrNo() == EINVAL, "22", sys(EINVAL));
	CASE("ErrNoException(unknown)", new ErrNoException(loc, 9999), as<ErrNoException>(e).getErrNo() == 9999, "9999");
	CASE("ErrNoWithDescException", new ErrNoWithDescException(loc, ENOMEM, L("what was done")), utf(String(as<ErrNoWithDescException>(e).getDesc())) == "what was done", "what was done", sys(ENOMEM));
	CASE("InvalidParamException", new InvalidParamException(loc, 3, L("too big")), true, "3", "too big");
	CASE("NoMoreObjects", new NoMoreObjects(loc, typeid(S)), as<NoMoreObjects>(e).getObjectType() == typeid(S), typeid(S).name());
	CASE("IteratorNoMoreItems", new IteratorNoMoreItems(loc, typeid(S)), as<NoMoreObjects>(e).getObjectType() == typeid(S) && dynamic_cast<const IteratorException *>(&e), typeid(S).name());
	CASE("WriteIteratorNoSpace", new WriteIteratorNoSpace(loc, typeid(S)), as<NoMoreObjects>(e).getObjectType() == typeid(S), typeid(S).name());
	CASE("WriteIteratorNotAcceptable", new WriteIteratorNotAcceptable(loc), true, "accept");
	CASE("FilterIteratorBusyException", new FilterIteratorBusyException(loc), true, "busy");
	CASE("OutOfMemoryException", new OutOfMemoryException(loc, 123456789), as<OutOfMemoryException>(e).getRequestedMemorySize() == 123456789, "123456789");
	CASE("AllocatorLimitException", new AllocatorLimitException(loc, 4711, 815, typeid(S)), true, "4711", "815", typeid(S).name());
	CASE("NullPointerException", new NullPointerException(loc), true, "NULL");
	CASE("NullPointerExceptionDesc", new NullPointerExceptionDesc(loc, ConstStrW(L"description")), utf(String(as<ErrorMessageException>(e).getErrorMsg())) == "description", "NULL", "description");
	CASE("InvalidPointerException", new InvalidPointerException(loc, (void *)0x12ab34), as<InvalidPointerException>(e).getPtr() == (void *)0x12ab34, "0x12AB34");
	CASE("RangeException(from,to)", new RangeException<natural>(loc, RangeExceptMode::rangeFromTo, 111, 222, 333), as<RangeException<natural> >(e).isRangeFromDefined() && as<RangeException<natural> >(e).isRangeToDefined() && as<RangeException<natural> >(e).getRangeFrom() == 111 && as<RangeException<natural> >(e).getRangeTo() == 222, "111", "222", "333");
	CASE("RangeException(from)", new RangeException<integer>(loc, RangeExceptMode::rangeFrom, -10, -11), as<RangeException<integer> >(e).isRangeFromDefined() && !as<RangeException<integer> >(e).isRangeToDefined() && as<RangeException<integer> >(e).getRangeFrom() == -10, "-10", "-11");
	CASE("RangeException(to)", new RangeException<natural>(loc, RangeExceptMode::rangeTo, 222, 333), !as<RangeException<natural> >(e).isRangeFromDefined() && as<RangeException<natural> >(e).isRangeToDefined() && as<RangeException<natural> >(e).getRangeTo() == 222, "222", "333");
	CASE("RangeException(value)", new RangeException<natural>(loc, RangeExceptMode::noRange, 333), !as<RangeException<natural> >(e).isRangeFromDefined() && !as<RangeException<natural> >(e).isRangeToDefined(), "333");
	CASE("UnknownException", new UnknownException(loc), true, "Unknown");
	CASE("StdException", new StdException(loc, std::runtime_error("standard text")), utf(as<StdException>(e).getWhat()) == "standard text" && as<StdException>(e).getType() == typeid(std::runtime_error), "standard text", typeid(std::runtime_error).name());
	CASE("UnsupportedFeatureOnClass", new UnsupportedFeatureOnClass<int>(ConstStrC("feature"), loc), utf(as<UnsupportedFeature>(e).getFeatureName()) == "feature", "'i'", "'feature'");
	CASE("NotImplementedExcption", new NotImplementedExcption(loc, L("feature")), utf(as<NotImplementedExcption>(e).getFeature()) == "feature", "feature");
	CASE("InvalidUTF8Character", new InvalidUTF8Character(loc, 0xc5), as<InvalidUTF8Character>(e).getChar() == 0xc5, "C5");
	CASE("InvalidUTF8Character(7)", new InvalidUTF8Character(loc, 7), as<InvalidUTF8Character>(e).getChar() == 7, "07");
	CASE("WaitingException", new WaitingException(loc, EINTR), as<ErrNoException>(e).getErrNo() == EINTR, "4", sys(EINTR));
	CASE("NetworkIOError", new NetworkIOError(loc, ECONNRESET, L("reading")), as<NetworkIOError>(e).getErrNo() == ECONNRESET && utf(String(as<NetworkIOError>(e).getDesc())) == "reading", "reading", sys(ECONNRESET));
	CASE("NetworkPortOpenException", new NetworkPortOpenException(loc, EADDRINUSE, 8080), as<NetworkPortOpenException>(e).getPort() == 8080, "8080", sys(EADDRINUSE));
	CASE("NetworkInvalidAddressException(nil)", new NetworkInvalidAddressException(loc, PNetworkAddress()), as<NetworkInvalidAddressException>(e).getAddress() == nil, "address");
	CASE("NetworkTimeoutException(read)", new NetworkTimeoutException(loc, 5000, NetworkTimeoutException::reading), as<NetworkTimeoutException>(e).getTimeout() == 5000 && as<NetworkTimeoutException>(e).getOperation() == NetworkTimeoutException::reading, "READ", "5000");
	CASE("NetworkTimeoutException(write)", new NetworkTimeoutException(loc, 5000, NetworkTimeoutException::writing), as<NetworkTimeoutException>(e).getOperation() == NetworkTimeoutException::writing, "WRITE", "5000");
	CASE("NetworkTimeoutException(connect)", new NetworkTimeoutException(loc, 5000, NetworkTimeoutException::connecting), as<NetworkTimeoutException>(e).getOperation() == NetworkTimeoutException::connecting, "CONNECT", "5000");
	CASE("NetworkTimeoutException(listen)", new NetworkTimeoutException(loc, 5000, NetworkTimeoutException::listening), as<NetworkTimeoutException>(e).getOperation() == NetworkTimeoutException::listening, "LISTEN", "5000");
	CASE("NetworkConnectFailedException", new NetworkConnectFailedException(loc, PNetworkAddress()), as<NetworkConnectFailedException>(e).getAddress() == nil, "connect");
	CASE("NetworkResolveError", new NetworkResolveError(loc, ENOENT, L("host.name")), utf(String(as<NetworkResolveError>(e).getAddress())) == "host.name", "host.name");
	CASE("KeyNotFoundException", (new KeyNotFoundException<natural>(loc, 77)), as<KeyNotFoundException<natural> >(e).getKey() == 77, "not found");
	CASE("SerializerNoSectionActiveException", new SerializerNoSectionActiveException(loc, typeid(S)), dynamic_cast<const SerializerException *>(&e), typeid(S).name());
	CASE("ClassNotRegisteredException", new ClassNotRegisteredException(loc, typeid(S)), as<ClassNotRegisteredException>(e).getClassInfo() == typeid(S), typeid(S).name());
	CASE("UnknownObjectIdentifierException", new UnknownObjectIdentifierException(loc, StringA("ident")), utf(String(as<UnknownObjectIdentifierException>(e).getClassInfo())) == "ident", "ident");
	CASE("SubsectionException", new SubsectionException(loc, StringA("section")), utf(String(as<SubsectionException>(e).getSectionName())) == "section", "section");
	CASE("RequiredSectionException", new RequiredSectionException(loc, StringA("section")), utf(String(as<SubsectionException>(e).getSectionName())) == "section", "section");
	CASE("UnexpectedSectionException", new UnexpectedSectionException(loc, StringA("section")), utf(String(as<SubsectionException>(e).getSectionName())) == "section", "section");
	CASE("HttpStatusException", new HttpStatusException(loc, L("http://host/path"), 404, L("Not found")), utf(String(as<HttpStatusException>(e).getUrl())) == "http://host/path" && as<HttpStatusException>(e).getStatus() == 404 && utf(String(as<HttpStatusException>(e).getStatusMsg())) == "Not found", "http://host/path", "404", "Not found");
	CASE("InvalidNumberFormatException", new InvalidNumberFormatException(loc, ConstStrA("12x")), utf(String(as<InvalidNumberFormatException>(e).getErrorNumber())) == "12x", "12x");
	CASE("CanceledException", new CanceledException(loc), true, "cancel");
	CASE("ContainerIsEmptyException", new ContainerIsEmptyException(loc), true, "empty");
	CASE("InterfaceNotImplementedException", new InterfaceNotImplementedException(loc, TypeInfo(typeid(int)), TypeInfo(typeid(S))), as<InterfaceNotImplementedException>(e).getObject() == TypeInfo(typeid(S)) && as<InterfaceNotImplementedException>(e).getRequestedInterface() == TypeInfo(typeid(int)), typeid(int).name(), typeid(S).name());
	CASE("ErrorMessageException", new ErrorMessageException(loc, String(L"\x17elut\x00fd %1 text")), utf(as<ErrorMessageException>(e).getErrorMsg()) == "\xc5\xbelut\xc3\xbd %1 text", "\xc5\xbelut\xc3\xbd %1 text");
	CASE("GenException", new Own0(loc), true, "own text");
	CASE("GenException2", new Own2(loc, 5, StringA("five")), as<Own2>(e).getArg1() == 5 && utf(String(as<Own2>(e).getArg2())) == "five", "own 5 and five");
	CASE("built with 1", new Built1(loc, L("name")), utf(String(as<Built1>(e).getName())) == "name", "built name");
	CASE("built with 4", new Built4(loc, 1, 2, 3, 5000000000u), as<Built4>(e).getC() == 3 && as<Built4>(e).getD() == 5000000000u, "built 1 2 3 5000000000");
}
struct CountAlloc: StdAlloc { long live; CountAlloc(): live(0) {} void *alloc(natural n) { live++; return StdAlloc::alloc(n); } void *alloc(natural n, IRuntimeAlloc *&o) { live++; void *p = StdAlloc::alloc(n); o = this; return p; } void dealloc(void *p, natural n) { live--; StdAlloc::dealloc(p, n); } };
static CountAlloc pool; static bool wrapped; // clones in an allocator are objects of a derived class
// passes the exception on in one of the ways the library uses
static PException pass(const PException &e) {
	int how = sq::choose(6); wrapped = how == 1; switch (how) {
		case 0: sq::op("clone"); return PException((Exception *)e->clone());
		case 1: sq::op("clone in an allocator"); return PException((Exception *)e->clone(pool));
		case 2: sq::op("throwAgain, getCurrentException"); try { e->throwAgain(); } catch (...) { return Exception::getCurrentException(); } break;
		case 3: sq::op("throwAgain, catch, clone"); try { e->throwAgain(); } catch (const Exception &x) { SQ_ASSERT(&x != e.get(), "the same object is thrown"); return PException((Exception *)x.clone()); } break;
		case 4: sq::op("throwAgain(location), as std::exception"); try { e->throwAgain(loc); } catch (const std::exception &x) { const Exception *y = dynamic_cast<const Exception *>(&x); SQ_ASSERT(y, "not an Exception"); SQ_ASSERT(S(x.what()).find(utf(e->getMessage())) != S::npos, "what() returns %s", sq::show(x.what()).c_str()); return PException((Exception *)y->clone()); } break;
		case 5: sq::op("rethrow"); try { try { e->throwAgain(); } catch (Exception &) { Exception::rethrow(loc); } } catch (...) { return Exception::getCurrentException(); } break;
	}
	SQ_ASSERT(false, "no exception was thrown"); return e;
}
static void examine(const Case &c, const Exception &e, const std::type_info &type, const S &msg, const VS &reasons) {
	SQ_ASSERT(typeid(e) == type || (wrapped && strstr(typeid(e).name(), "ClonedObject")), "%s became %s", type.name(), typeid(e).name());
	S m = utf(e.getMessage()); SQ_ASSERT(m == msg, "%s: the message %s became %s", c.name, sq::show(msg).c_str(), sq::show(m).c_str());
	size_t at = 0; for (auto &p: c.parts) SQ_ASSERT(m.find(p) != S::npos, "%s: the message doesn't contain %s: %s", c.name, sq::show(p).c_str(), sq::show(m).c_str()); (void)at;
	SQ_ASSERT(c.values(e), "%s: the values changed", c.name);
	const ProgramLocation &l = e.getLocation(); SQ_ASSERT(S(l.file) == loc.file && l.line == loc.line && S(l.function) == loc.function, "%s: the location is %s:%d", c.name, l.file, l.line);
	const Exception *r = e.getReason(); S all = msg; for (auto &x: reasons) { SQ_ASSERT(r, "%s: a reason was lost", c.name); SQ_ASSERT(utf(r->getMessage()) == x, "%s: reason %s instead of %s", c.name, utf(r->getMessage()).c_str(), x.c_str()); r = r->getReason(); } SQ_ASSERT(!r, "%s: one more reason", c.name);
	S wr = utf(e.getMessageWithReason()), lm = utf(e.getLongMessage()), w = e.what(); SQ_ASSERT(w == lm, "%s: what() is %s", c.name, sq::show(w).c_str()); size_t p = 0, q = 0; 
	p = wr.find(msg); q = lm.find(msg); SQ_ASSERT(p != S::npos && q != S::npos, "%s: the text doesn't contain the message", c.name); p += msg.size(); q += msg.size();
	for (auto &x: reasons) { p = wr.find(x, p); q = lm.find(x, q); SQ_ASSERT(p != S::npos && q != S::npos, "%s: the text doesn't contain the reason %s", c.name, x.c_str()); p += x.size(); q += x.size(); }
	SQ_ASSERT(lm.find(loc.file) != S::npos && lm.find("1234") != S::npos, "%s: the text doesn't contain the location", c.name); SQ_ASSERT(e.getStaticDesc() != 0, "no description");
}
}
SQ_SCENARIO(classes, 2, 3) { fill(); pool.live = 0; {
	const Case &c = cases[sq::choose(cases.size())]; sq::op("%s", c.name); VS reasons; wrapped = false; PException e(c.make()); const std::type_info &type = typeid(*e); S msg = utf(e->getMessage());
	int nr = sq::choose(3); for (int i = 0; i < nr; i++) { S t = i ? "second cause" : "first cause"; reasons.push_back(t); if (i == 0) e->setReason(ErrorMessageException(loc, L(t))); else e->appendReason(PException(new ErrorMessageException(loc, L(t)))); }
	examine(c, *e, type, msg, reasons); int n = sq::depth(); for (int i = 0; i < n; i++) { PException x = pass(e); e = x; examine(c, *e, type, msg, reasons); } sq::outcome(msg); }
	SQ_ASSERT(pool.live == 0, "%ld objects remain in the allocator", pool.live);
}
// which exceptions are thrown by the conversion of text
SQ_SCENARIO(thrown, 2, 3) { 
	int k = sq::choose(4); sq::op("failing conversion %d", k); PException e;
	try { if (k == 0) String x(ConstStrA("x"), "no-such-page"); else if (k == 1) String(L"x").getCP("no-such-page"); else if (k == 2) String x(ConstStrA("a\xff\xff"), "UTF-8"); else String(L"a\x5d0").getCP("ISO-8859-1"); SQ_ASSERT(false, "the conversion succeeds"); }
	catch (...) { e = Exception::getCurrentException(); }
	bool page = k < 2; S msg = utf(e->getMessage()); SQ_ASSERT(page ? msg.find("no-such-page") != S::npos : msg.find("character") != S::npos, "the message is %s", msg.c_str());
	for (int i = 0; i < sq::depth(); i++) { PException x = pass(e); e = x; SQ_ASSERT(page ? dynamic_cast<UnknownCodePageException *>(e.get()) != 0 : dynamic_cast<InvalidCharacterException *>(e.get()) != 0, "the exception became %s", typeid(*e).name()); SQ_ASSERT(utf(e->getMessage()) == msg, "the message became %s", utf(e->getMessage()).c_str()); }
	sq::outcome(msg);
}
// an exception of the library which is known only as std::exception
SQ_SCENARIO(as_standard, 2, 3) { fill(); pool.live = 0; {
	const Case &c = cases[sq::choose(cases.size())]; VS want; wrapped = false; PException e(c.make()); want.push_back(utf(e->getMessage())); int nr = sq::choose(3); for (int i = 0; i < nr; i++) { S t = i ? "second cause" : "first cause"; want.push_back(t); e->appendReason(ErrorMessageException(loc, L(t))); }
	int how = sq::choose(2); sq::op("%s with %d reasons as StdException (%d)", c.name, nr, how); PException w; try { e->throwAgain(); } catch (const std::exception &x) { w = how ? PException(new StdException(loc, x)) : PException(new StdException(x, loc)); } SQ_ASSERT(w != nil, "nothing was thrown"); e = nil; S msg = utf(w->getMessage());
	for (int i = 0; i < sq::depth(); i++) { SQ_ASSERT(utf(w->getMessage()) == msg, "the message changed"); SQ_ASSERT(dynamic_cast<StdException *>(w.get()), "the class changed"); VS got; for (const Exception *r = w->getReason(); r && got.size() < 9; r = r->getReason()) got.push_back(utf(r->getMessage())); SQ_ASSERT(got == want, "%zu reasons instead of %zu", got.size(), want.size()); S t = w->what(); size_t at = 0; for (auto &x: want) { at = t.find(x, at); SQ_ASSERT(at != S::npos, "what() doesn't contain %s: %s", sq::show(x).c_str(), sq::show(t).c_str()); } PException x = pass(w); w = x; } sq::outcome(want[0]); }
	SQ_ASSERT(pool.live == 0, "%ld objects remain in the allocator", pool.live);
}
// three exceptions, copied and used as reasons of each other
static PException mk(const char *t) { return PException(new ErrorMessageException(loc, L(t))); }
SQ_SCENARIO(reasons, 3, 4) { {
	PException x[3] = { mk("A"), mk("B"), mk("C") }; VS m[3] = { { "A" }, { "B" }, { "C" } }; PException fix[2] = { mk("P"), mk("Q") }; VS fm[2] = { { "P" }, { "Q", "R" } }; fix[1]->setReason(mk("R")); VS base[2] = { fm[0], fm[1] };
	int n = sq::depth(); for (int i = 0; i < n; i++) {
		int a = sq::choose(3), op = sq::choose(5); 
		if (op == 0) { int b = sq::choose(3); sq::op("%d << *%d", a, b); VS add = m[b]; *x[a] << *x[b]; m[a].insert(m[a].end(), add.begin(), add.end()); }
		else if (op == 1) { int b = sq::choose(2); sq::op("%d << shared %d", a, b); *x[a] << fix[b]; m[a].insert(m[a].end(), fm[b].begin(), fm[b].end()); }
		else if (op == 2) { int b = sq::choose(3); if (b == a) sq::skip(); sq::op("%d = copy of %d", a, b); try { x[b]->throwAgain(); } catch (...) { x[a] = Exception::getCurrentException(); } m[a] = m[b]; }
		else if (op == 3) { sq::op("what(%d)", a); S w = x[a]->what(); SQ_ASSERT(!w.empty(), "empty"); }
		else { sq::op("%d = %d thrown with the reason of another", a, a); PException y; try { try { x[(a + 1) % 3]->throwAgain(); } catch (const Exception &cause) { throw ErrorMessageException(loc, L("T")) << cause; } } catch (const Exception &t) { y = PException((Exception *)t.clone()); } x[a] = y; VS r = { "T" }; r.insert(r.end(), m[(a + 1) % 3].begin(), m[(a + 1) % 3].end()); m[a] = r; }
		for (int k = 0; k < 5; k++) { const PException &e = k < 3 ? x[k] : fix[k - 3]; VS &want = k < 3 ? m[k] : base[k - 3]; const Exception *r = e; S got; size_t cnt = 0; VS all; while (r && cnt++ <= want.size() + 2) { all.push_back(utf(r->getMessage())); got += all.back(); r = r->getReason(); } SQ_ASSERT(all == want, "exception %d has the reasons %s...", k, got.c_str()); S w = e->what(); SQ_ASSERT(w == utf(e->getLongMessage()), "what() of %d is %s", k, sq::show(w).c_str()); }
	}
	for (int k = 0; k < 3; k++) { for (auto &s: m[k]) sq::outcome(s); }
} }
