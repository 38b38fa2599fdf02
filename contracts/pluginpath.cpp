// Contracts of plugin paths and of the plugin registry (lib/Plugin/Path.cpp, Registry.cpp, Plugin.cpp).
#include "stdpre.h"
#define private public
#define protected public
#include <Poco/StringTokenizer.h>
#include <Pothos/Plugin.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Callable.hpp>
#include "noreg.h"
#include "Plugin/Path.cpp"
#include "Plugin/Exception.cpp"
#include "Plugin/Plugin.cpp"
#include "Plugin/Module.cpp"
#include "Plugin/ModulePaths.cpp"
#include "Plugin/Registry.cpp"
#include "Object/Object.cpp"
#include "Object/Exception.cpp"
#include "Callable/Callable.cpp"
#include "Callable/CallInterface.cpp"
#include "Callable/Exception.cpp"
#include "Exception.cpp"
#undef private
#undef protected
#include "vc.h"
#include "rbtree.h"
#include "msgtext.h"
using namespace Pothos;
// conversion of an object that has the wanted type already is the object (see the contracts of conversion)
Object Pothos::Object::convert(const std::type_info &t) const { if (this->type() != t) throw ObjectConvertError("convert", "no such conversion"); return *this; }
#ifndef VC_NATIVE
// assumed contract of Poco's tokenizer: splits at the separator, with or without the empty pieces (none for an empty text)
static void tokenize(Poco::StringTokenizer *self, const std::string &s, const std::string &sep, int opt)
{
    new (&self->_tokens) std::vector<std::string>();
    const bool all = (opt & 1) == 0;
    std::string t; bool last = false;
    const size_t n = vc_concretize(s.size());
    for (size_t i = 0; i < n; i++)
    {
        if (vc_split(s[i] == sep[0])) { if (!t.empty() || all) self->_tokens.push_back(t); t.clear(); last = all; }
        else { t.push_back(s[i]); last = false; }
    }
    if (!t.empty() || last) self->_tokens.push_back(t);
}
static void untokenize(Poco::StringTokenizer *self) { self->_tokens.~vector(); }
static size_t hash(const std::string &) { return 0; }
VC_CONTRACT(hash, ".", "^Poco::hash\\(std::", hash)
// the lock around the registry is held for the call (see the contracts of the lock itself)
VC_CONTRACT(lock, ".", "^Pothos::Util::SpinLockRW::(un)?lock(_shared)?\\(", vc_nothing)
VC_CONTRACT(tok, ".", "^Poco::StringTokenizer::StringTokenizer", tokenize)
VC_CONTRACT(untok, ".", "^Poco::StringTokenizer::~StringTokenizer", untokenize)
#endif
VC_OPT(all, ".", "bounded deadline=300 accel=0")
static int pick(const char *n, int lo, int hi) { return (int)vc_concretize(vc_in(n, lo, hi)); }
typedef std::vector<std::string> Names;
static bool nameChar(char c)
{
    return bool(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '-'));
}
// any text of at most the given length: accepted exactly when it is the root or a sequence of "/name"
static void text(size_t lo, size_t hi)
{
    const size_t n = vc_concretize(vc_in("length", lo, hi));
    char t[16];
    bool ok = n > 0;
    for (size_t i = 0; i < n; i++) t[i] = (char)vc_u8("char");
    for (size_t i = 0; i < n; i++)
    {
        const bool slash = t[i] == '/';
        if (i == 0) ok = ok & slash;
        else ok = ok & bool(nameChar(t[i]) | (slash & (t[i-1] != '/')));
        if (i == n - 1 && n > 1) ok = ok & !slash;
    }
    const std::string s(t, n);
    bool thrown = false; std::string back; Names names;
    try { const PluginPath p(s); back = p.toString(); names = p.listNodes(); } catch (const PluginPathError &) { thrown = true; }
    vc_assert(thrown == !ok, "exactly the well formed paths are accepted");
    if (thrown) { vc_cover("refused"); return; }
    vc_assert(back == s, "the text of a path is the text it was made from");
    std::string joined;
    for (size_t i = 0; i < names.size(); i++) { vc_assert(!names[i].empty(), "names are not empty"); joined += "/" + names[i]; }
    if (names.empty()) joined = "/";
    vc_assert(joined == s, "the names of a path are the pieces between its slashes, in order");
    vc_cover("end");
}
VC_PROOF(text_short) { text(0, 4); }
VC_PROOF(text_long) { text(5, 6); }
static Names names(const char *what, int lo, int hi)
{
    Names r;
    const int n = pick(what, lo, hi);
    for (int i = 0; i < n; i++)
    {
        std::string s;
        const int len = pick("len", 1, 2);
        for (int j = 0; j < len; j++) { s.push_back((char)vc_in("c", 'a', 'z')); }
        r.push_back(s);
    }
    return r;
}
static std::string pathText(const Names &n)
{
    std::string s;
    for (size_t i = 0; i < n.size(); i++) s += "/" + n[i];
    return n.empty() ? std::string("/") : s;
}
static std::string subText(const Names &n)
{
    std::string s;
    for (size_t i = 0; i < n.size(); i++) s += (i ? "/" : "") + n[i];
    return s;
}
static void same(const PluginPath &p, const Names &a, const Names &b)
{
    Names w(a); w.insert(w.end(), b.begin(), b.end());
    const Names got = p.listNodes();
    vc_assert(got.size() == w.size(), "joining gives all the names");
    bool eq = true;
    for (size_t i = 0; i < w.size(); i++) eq = eq & (got[i] == w[i]);
    vc_assert(eq, "joining appends the names in order");
    vc_assert(p.toString() == pathText(w), "the text of a joined path is the names between slashes");
}
VC_PROOF(join)
{
    const Names a = names("base", 0, 2), b = names("added", 1, 2);
    const PluginPath p(pathText(a));
    same(p.join(subText(b)), a, b);
    same(p, a, Names());
    vc_cover("end");
}
VC_PROOF(join_refused)
{
    const Names a = names("base", 0, 1);
    const PluginPath p(pathText(a));
    const size_t n = vc_concretize(vc_in("length", 0, 3));
    char t[4]; bool ok = n > 0;
    for (size_t i = 0; i < n; i++)
    {
        t[i] = (char)vc_u8("char");
        const bool slash = t[i] == '/';
        ok = ok & bool(nameChar(t[i]) | (slash & (i > 0) & (i < n-1) & (t[i ? i-1 : 0] != '/')));
    }
    bool thrown = false;
    try { p.join(std::string(t, n)); } catch (const PluginPathError &) { thrown = true; }
    // (nothing to append is nothing but the path itself where it is accepted)
    if (n > 0) vc_assert(thrown == !ok, "exactly well formed names can be appended");
    vc_cover("end");
}
VC_PROOF(concatenate)
{
    const Names a = names("base", 0, 2), b = names("added", 0, 2);
    const PluginPath p(pathText(a)), q(pathText(b));
    same(PluginPath(p, q), a, b);
    vc_cover("end");
}
VC_PROOF(equality)
{
    const Names a = names("left", 0, 2), b = names("right", 0, 2);
    const PluginPath p(pathText(a)), q(pathText(b));
    bool eq = a.size() == b.size();
    for (size_t i = 0; i < a.size() && i < b.size(); i++) eq = eq & (a[i] == b[i]);
    vc_assert((p == q) == eq && (p != q) == !eq, "paths are equal exactly when their names are");
    PluginPath r; r = p;
    vc_assert(r == p && PluginPath(p) == p, "a copy is equal");
    vc_assert(PluginPath() == PluginPath("/"), "the default path is the root");
    vc_cover("end");
}
// ---- registry
static const char *const P[] = {"/a", "/a/b", "/a/b/c", "/ab", "/d/e"};
enum { NP = 5 };
static int g_has[NP];
static std::string prefix(const char *p) { return std::string(p) == "/" ? std::string("/") : std::string(p) + "/"; }
static bool below(const char *dir, const char *p) { const std::string d = prefix(dir); return std::string(p).compare(0, d.size(), d) == 0; }
static int g_events; static char g_event[16][12];
static bool g_throw;
static void event(const Plugin &p, const std::string &what)
{
    if (g_events < 16) { const std::string s = what.substr(0, 1) + p.getPath().toString(); memcpy(g_event[g_events], s.c_str(), s.size() + 1); }
    g_events++;
    if (g_throw) throw InvalidArgumentException("handler", "x");
}
static size_t nodes(const RegistryEntry &e) { size_t n = 1; for (auto &x : e.nodes) n += nodes(x.second); return n; }
static void observe(void)
{
    const size_t size = nodes(getRegistryRoot());
    for (int i = 0; i < NP; i++)
    {
        const PluginPath path(P[i]);
        bool deep = g_has[i];
        for (int j = 0; j < NP; j++) deep = deep || (g_has[j] && below(P[i], P[j]));
        vc_assert(PluginRegistry::empty(path) == !g_has[i], "a path is empty exactly when nothing is registered there");
        vc_assert(PluginRegistry::exists(path) == deep, "a path exists exactly when something is registered there or below");
        try
        {
            const Plugin p = PluginRegistry::get(path);
            vc_assert(g_has[i], "nothing is found where nothing is registered");
            vc_assert(p.getPath() == path && p.getObject().type() == typeid(int) && p.getObject().extract<int>() == g_has[i], "a path gives the object registered there");
        }
        catch (const PluginRegistryError &) { vc_assert(!g_has[i], "what is registered is found"); }
    }
    vc_assert(PluginRegistry::empty(PluginPath("/x/y")) && !PluginRegistry::exists(PluginPath("/x")), "an unknown path is empty");
    static const char *const D[] = {"/", "/a", "/a/b", "/d", "/x"};
    for (int k = 0; k < 5; k++)
    {
        Names want;
        for (int i = 0; i < NP; i++) if (g_has[i] && below(D[k], P[i]))
        {
            std::string rest = std::string(P[i]).substr(prefix(D[k]).size());
            rest = rest.substr(0, rest.find('/'));
            if (std::find(want.begin(), want.end(), rest) == want.end()) want.push_back(rest);
        }
        Names got = PluginRegistry::list(PluginPath(D[k]));
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        vc_assert(got == want, "a listing gives exactly the names under which something is registered");
    }
    vc_assert(nodes(getRegistryRoot()) == size, "looking up changes nothing");
}
static void operate(bool add, int i, int v)
{
    bool thrown = false;
    if (add)
    {
        try { PluginRegistry::add(Plugin(P[i], Object(v))); } catch (const PluginRegistryError &) { thrown = true; }
        vc_assert(thrown == (g_has[i] != 0), "registering is refused exactly when the path is taken");
        if (!thrown) g_has[i] = v;
    }
    else
    {
        try
        {
            const Plugin p = PluginRegistry::remove(PluginPath(P[i]));
            vc_assert(p.getObject().type() == typeid(int) && p.getObject().extract<int>() == g_has[i], "removing gives back what was registered");
        }
        catch (const PluginRegistryError &) { thrown = true; }
        vc_assert(thrown == (g_has[i] == 0), "removing is refused exactly when nothing is registered");
        g_has[i] = 0;
    }
}
VC_PROOF(registry)
{
    getRegistryRoot() = RegistryEntry();
    for (int i = 0; i < NP; i++) { g_has[i] = 0; if (pick("has", 0, 1)) operate(true, i, 10 + i); }
    const bool add = vc_split(vc_bool("add"));
    operate(add, pick("which", 0, NP-1), 99);
    observe();
    vc_cover("end");
}
VC_PROOF(registry_history)
{
    getRegistryRoot() = RegistryEntry();
    for (int i = 0; i < NP; i++) g_has[i] = 0;
    for (int k = 0; k < 3; k++) { const bool add = k == 0 || vc_split(vc_bool("add")); operate(add, pick("which", 0, 2), 20 + k); }
    observe();
    vc_cover("end");
}
// a handler hears of every plugin added or removed below it, also of those there before it, and of no other
static void saw(int from, const char *what) { vc_assert(from < g_events && std::string(g_event[from]) == what, "a handler hears of every change below it, in order"); }
VC_PROOF(handlers)
{
    getRegistryRoot() = RegistryEntry();
    for (int i = 0; i < NP; i++) g_has[i] = 0;
    g_events = 0; g_throw = vc_split(vc_bool("throwing"));
    const bool before = vc_split(vc_bool("before"));
    if (before) { operate(true, 2, 5); vc_assert(g_events == 0, "no handler, no event"); }
    const int deep = pick("handler", 0, 2);
    PluginRegistry::add(Plugin(deep == 2 ? "/" : deep ? "/a/b" : "/a", Object(Callable(&event))));
    // (a handler at the root is also told of itself)
    const int own = deep == 2 ? 1 : 0;
    int n = g_events;
    vc_assert(n == (before ? 1 : 0) + own, "a new handler hears of what is below it already");
    if (before) saw(n - 1, "a/a/b/c");
    if (!before) { operate(true, 2, 6); saw(n, "a/a/b/c"); vc_assert(g_events == n + 1, "each change is told once"); n = g_events; }
    operate(true, 3, 7);
    if (deep == 2) saw(n++, "a/ab");
    vc_assert(g_events == n, "changes elsewhere are not told");
    operate(false, 2, 0);
    saw(n++, "r/a/b/c");
    operate(false, 3, 0);
    if (deep == 2) saw(n++, "r/ab");
    vc_assert(g_events == n, "each change is told once");
    vc_cover("end");
}
