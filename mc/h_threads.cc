// C22 singletons and plugins; C24 threads
#include "mc.hh"
#include "mt.hh"
#include "rmodel.hh"
#include "regs.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/csvoutput.hh>
#include <typelib/typedisplay.hh>
#include <typelib/endianness.hh>
#include <typelib/utilmm/singleton/use.hh>
#include <typelib/utilmm/configset.hh>
#include <lang/csupport/standard_types.hh>
#include <lang/csupport/containers.hh>
#include <cstring>
#include <fstream>
#include <iostream>
#include <link.h>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace std;
using namespace Typelib;
using utilmm::singleton::use;
using utilmm::config_set;
using mc::Ctx;

namespace
{
    // ------------------------------------------------------------------ singletons that report what happens to them
    const int NS = 6;
    struct Log { int alive[NS], made[NS], fail; } L;
    // Each registers its instances. 2: its constructor uses 0 for a moment. 3: has a client of 1. 4: its destructor uses 0.
    // 5: its constructor uses 1, and then fails as often as L.fail says
    template<int N> struct S;
    template<int N> struct Part {};
    template<> struct Part<3> { use<S<1>> other; };
    template<int N> struct S
    {
        int id; int values[3]; Part<N> part;
        S();
        ~S();
    };
    template<int N> void during_constructor() {}
    template<int N> void during_destructor() {}
    template<> void during_constructor<2>() { use<S<0>> x; if (x->id <= 0) mc::fail("nested", "a dead instance is given to a constructor"); }
    template<> void during_constructor<5>() { { use<S<1>> x; } mt::Quiet q; if (L.fail) { --L.fail; throw std::runtime_error("constructor"); } }
    template<> void during_destructor<4>() { use<S<0>> x; if (x->id <= 0) mc::fail("nested", "a dead instance is given to a destructor"); }
    template<int N> S<N>::S()
    {
        during_constructor<N>();
        mt::Quiet q; ++L.alive[N]; id = ++L.made[N]; values[0] = values[1] = values[2] = id;
    }
    template<int N> S<N>::~S() { during_destructor<N>(); mt::Quiet q; --L.alive[N]; id = -1; }

    // the reference: clients of each
    struct Ref
    {
        int clients[NS] = { 0 }, made[NS] = { 0 }, fail = 0;
        bool ref(int n)
        {
            if (clients[n] == 0)
            {
                if (n == 3) ref(1);
                if (n == 2) { ref(0); unref(0); }
                if (n == 5) { ref(1); unref(1); if (fail) { --fail; return false; } }
                ++made[n];
            }
            ++clients[n]; return true;
        }
        void unref(int n)
        {
            if (--clients[n]) return;
            if (n == 4) { ref(0); unref(0); }
            if (n == 3) unref(1);
        }
    };
    struct Client { virtual ~Client() {} virtual Client* copy() const = 0; virtual int id() const = 0; int n; };
    template<int N> struct ClientOf : Client
    {
        use<S<N>> u; ClientOf() { n = N; } ClientOf(ClientOf const& o) : u(o.u) { n = N; }
        Client* copy() const { return new ClientOf(*this); }
        int id() const { S<N>& a = u.instance(); S<N>& b = *u; S<N>* d = u.operator->(); return &a == &b && &a == d && a.id == a.values[1] ? a.id : -1; }
    };
    Client* client(int n) { switch (n) { case 0: return new ClientOf<0>; case 1: return new ClientOf<1>; case 2: return new ClientOf<2>; case 3: return new ClientOf<3>; case 4: return new ClientOf<4>; default: return new ClientOf<5>; } }
    template<typename T> void drop(T& v, size_t i) { v.erase(v.begin() + i); }
}
// all sequences of new clients, copies, and ends of clients
MC_BODY("C22", "histories")
{
    int depth = c.thorough ? 6 : 5, n = 1 + c.choose(depth, "length"), fail = c.choose(2, "failures"); vector<int> ops;
    { int live = 0; for (int i = 0; i < n; ++i) { int k = live > 3 ? 3 : live; int o = c.choose(NS + (live ? 1 : 0) + k, "operation"); if (i == 1 || (n == 1 && i == 0)) c.unit(); ops.push_back(o); if (o <= NS - (live ? 0 : 1)) ++live; else --live; } }
    memset(&L, 0, sizeof L); L.fail = fail; Ref m; m.fail = fail; ostringstream tr;
    static bool warm = false; if (!warm) { { use<S<0>> x; } warm = true; memset(&L, 0, sizeof L); L.fail = fail; }
    long before = mc::live_allocs;
    auto body = [&]() {
        vector<unique_ptr<Client>> clients;
        auto compare = [&]() {
            mt::Quiet q;
            for (int k = 0; k < NS; ++k)
            {
                int alive = m.clients[k] > 0;
                MC_CHECK(L.alive[k] == alive, alive ? "missing" : "left", mc::fmt("singleton %d: %d instances while it has %d clients, after%s", k, L.alive[k], m.clients[k], tr.str().c_str()));
                MC_CHECK(L.made[k] == m.made[k], "made", mc::fmt("singleton %d: %d instances were made instead of %d, after%s", k, L.made[k], m.made[k], tr.str().c_str()));
            }
        };
        for (int o : ops)
        {
            bool any = !clients.empty();
            if (o < NS)
            {
                { mt::Quiet q; tr << " new" << o; }
                bool expect = m.ref(o), ok = true;
                try { clients.push_back(unique_ptr<Client>(client(o))); } catch (std::runtime_error&) { ok = false; }
                MC_CHECK(ok == expect, "constructor", "the failure of a constructor is not reported");
            }
            else if (any && o == NS) { { mt::Quiet q; tr << " copy"; } m.ref(clients.back()->n); clients.push_back(unique_ptr<Client>(clients.back()->copy())); }
            else
            {
                size_t i = o - NS - 1; if (i >= clients.size()) break;
                { mt::Quiet q; tr << " end" << i; }
                int k = clients[i]->n; drop(clients, i); m.unref(k);
            }
            compare();
            for (auto& x : clients) MC_CHECK(x->id() == m.made[x->n], "instance", "a client gets an instance that is not the current one, after" + tr.str());
        }
        while (!clients.empty()) { int k = clients[0]->n; drop(clients, 0); m.unref(k); compare(); }
    };
    mt::run(c, { body });
    string t = tr.str(); tr.str(""); ops = vector<int>(); c.step(n); c.state(t + (fail ? "f" : ""));
}
namespace
{
    void thread_op(int o)
    {
        auto ok = [](int id, int alive) { mt::Quiet q; MC_CHECK(id > 0, "instance", "a client gets a dead instance"); MC_CHECK(alive == 1, "alive", "not exactly one instance while it is used"); };
        switch (o)
        {
            case 0: { use<S<0>> a; ok(a->id, L.alive[0]); break; }
            case 1: { use<S<0>> a; int id = a->id; { use<S<0>> b(a); ok(b->id == id ? 1 : -1, L.alive[0]); } ok(a->id == id ? 1 : -1, L.alive[0]); break; }
            case 2: { use<S<1>> a; ok(a->id, L.alive[1]); break; }
            case 3: { use<S<0>> a; use<S<1>> b; ok(a->id, L.alive[0]); ok(b->id, L.alive[1]); break; }
            case 4: { unique_ptr<use<S<0>>> a(new use<S<0>>); use<S<1>> b; a.reset(); ok(b->id, L.alive[1]); break; }
            case 5: { use<S<2>> a; ok(a->id, L.alive[2]); break; }
            case 6: { use<S<3>> a; ok(a->id, L.alive[3]); ok(1, L.alive[1]); break; }
            case 7: { use<S<4>> a; ok(a->id, L.alive[4]); break; }
            case 8: { bool f = false; try { use<S<5>> a; ok(a->id, L.alive[5]); } catch (std::runtime_error&) { f = true; } (void)f; break; }
        }
    }
}
// threads that use singletons: all schedules
MC_BODY("C22", "schedules")
{
    int threads = 2 + c.choose(2, "threads"), len = threads == 2 ? 1 + c.choose(2, "length") : 1; vector<vector<int>> ops(threads);
    for (auto& o : ops) for (int i = 0; i < len; ++i) o.push_back(c.choose(9, "operation"));
    for (int t = 1; t < threads; ++t) if (ops[t] < ops[t - 1]) throw mc::Prune(); // threads are alike
    c.unit();
    // all schedules for the short ones
    int bound = threads == 2 && len == 1 ? -1 : c.thorough ? 3 : threads == 2 ? 1 : 2;
    memset(&L, 0, sizeof L); L.fail = 1;
    vector<function<void()>> bodies; for (int t = 0; t < threads; ++t) bodies.push_back([&ops, t] { for (int o : ops[t]) thread_op(o); });
    mt::Stats s = mt::run(c, bodies, bound);
    c.step(s.points); c.count("accesses", s.accesses); c.count("synchronisations", s.syncs); c.count("preemptions", s.preemptions);
    for (int k = 0; k < NS; ++k) MC_CHECK(L.alive[k] == 0, "left", mc::fmt("%d instances of singleton %d are left after its last client", L.alive[k], k));
    uint64_t h = threads; for (auto& o : ops) for (int i : o) h = h * 11 + i; c.state(h * 64 + L.made[0] * 8 + L.made[1]);
}

// ------------------------------------------------------------------ plugins
namespace
{
    int plugins_alive = 0, types_registered = 0;
    struct In : Importer { string tag; In(string t) : tag(t) {} void load(istream&, config_set const&, Registry& r) { r.add(new Numeric("/" + tag, 1, Numeric::SInt)); } };
    struct Out : Exporter { string tag; Out(string t) : tag(t) {} void save(ostream& o, config_set const& c, Registry const& r) { o << tag << r.size() << c.get<string>("k", ""); } using Exporter::save; bool save(ostream&, RegistryIterator const&) { return true; } };
    struct InPlugin : ImportPlugin { string tag; InPlugin(string n, string t) : ImportPlugin(n), tag(t) { ++plugins_alive; } ~InPlugin() { --plugins_alive; } Importer* create() { return new In(tag); } };
    struct OutPlugin : ExportPlugin { string tag; OutPlugin(string n, string t) : ExportPlugin(n), tag(t) { ++plugins_alive; } ~OutPlugin() { --plugins_alive; } Exporter* create() { return new Out(tag); } };
    struct TypesPlugin : TypeDefinitionPlugin { string tag; TypesPlugin(string t) : tag(t) { ++plugins_alive; } ~TypesPlugin() { --plugins_alive; } void registerTypes(Registry& r) { tag == "a" ? r.add(new Numeric("/a", 2, Numeric::UInt)) : r.alias("/a", "/" + tag); } };
    template<typename F> string outcome(F f) { try { return f(); } catch (PluginNotFound&) { return "(not found)"; } catch (std::exception& e) { return string("exception: ") + e.what(); } }
    string plugin_path;
    void set_path(string const& p) { setenv("TYPELIB_PLUGIN_PATH", p.c_str(), 1); }
    struct Silent { streambuf* old; ostringstream s; Silent() { old = cerr.rdbuf(s.rdbuf()); } ~Silent() { cerr.rdbuf(old); } };
    vector<string> plugin_dirs()
    {
        if (plugin_path.empty()) plugin_path = getenv("TYPELIB_PLUGIN_PATH");
        vector<string> r; stringstream s(plugin_path); string d; while (getline(s, d, ':')) r.push_back(d); return r;
    }
}
// all sequences of registrations of plugins, what they answer, and that they are released
MC_BODY("C22", "registrations")
{
    plugin_dirs(); set_path("/nonexistent");
    int depth = c.thorough ? 5 : 4, n = c.choose(depth + 1, "length"); vector<int> ops; for (int i = 0; i < n; ++i) { ops.push_back(c.choose(10, "operation")); if (i == 1 || i == n - 1) c.unit(); } if (!n) c.unit();
    for (int round = 0; round < 2; ++round)
    {
        long before = mc::live_allocs;
        {
            Silent quiet; PluginManager::self m; map<string, string> in, out; vector<string> types; int next = 0; vector<unique_ptr<InPlugin>> refused_in; vector<unique_ptr<OutPlugin>> refused_out;
            for (int o : ops)
            {
                string tag = "p" + to_string(next++); string name = o % 2 ? "x" : "xy";
                if (o < 4) { InPlugin* p = new InPlugin(name, tag); bool r = m->add(p); MC_CHECK(r == !in.count(name), "add", "add() of an import plugin tells the wrong thing"); if (r) in[name] = tag; else refused_in.push_back(unique_ptr<InPlugin>(p)); if (o >= 2) { PluginManager::self again; } }
                else if (o < 8) { OutPlugin* p = new OutPlugin(name, tag); bool r = m->add(p); MC_CHECK(r == !out.count(name), "add", "add() of an export plugin tells the wrong thing"); if (r) out[name] = tag; else refused_out.push_back(unique_ptr<OutPlugin>(p)); if (o >= 6) { PluginManager::self copy(m); } }
                else { string t = types.empty() ? "a" : "t" + to_string(types.size()); m->add(new TypesPlugin(t)); types.push_back(t); }
            }
            size_t base = types.size(); string with = to_string(base + 1);
            for (string name : { "x", "xy", "", "xyz", "tlb" })
            {
                string i = outcome([&] { unique_ptr<Importer> x(m->importer(name)); return dynamic_cast<In&>(*x).tag; }), e = outcome([&] { unique_ptr<Exporter> x(m->exporter(name)); return dynamic_cast<Out&>(*x).tag; });
                MC_CHECK(i == (in.count(name) ? in[name] : "(not found)"), "importer", "importer " + name + " is " + i); MC_CHECK(e == (out.count(name) ? out[name] : "(not found)"), "exporter", "exporter " + name + " is " + e);
                // through the static functions
                Registry r; r.add(new Numeric("/q", 1, Numeric::SInt)); config_set k; k.set("k", "v"); istringstream s;
                MC_CHECK(outcome([&] { return PluginManager::save(name, k, r); }) == (out.count(name) ? out[name] + with + "v" : "(not found)"), "save", name);
                MC_CHECK(outcome([&] { return PluginManager::save(name, r); }) == (out.count(name) ? out[name] + with : "(not found)"), "save", name);
                MC_CHECK(outcome([&] { ostringstream o; PluginManager::save(name, k, r, o); return o.str(); }) == (out.count(name) ? out[name] + with + "v" : "(not found)"), "save", name);
                string li = outcome([&] { unique_ptr<Registry> l(PluginManager::load(name, s)); return l->size() == base + 1 && in.count(name) && l->has("/" + in[name]) ? string("ok") : string("wrong"); });
                MC_CHECK(li == (in.count(name) ? "ok" : "(not found)"), "load", name + ": " + li);
                li = outcome([&] { PluginManager::load(name, s, k, r); return r.size() == base + 2 && in.count(name) && r.has("/" + in[name]) ? string("ok") : string("wrong"); });
                MC_CHECK(li == (in.count(name) ? "ok" : "(not found)"), "load", name + ": " + li);
                if (!in.count(name)) MC_CHECK(r.size() == base + 1, "load", "a load that is refused changes the registry");
            }
            for (int again = 0; again < 2; ++again) { Registry r; set<string> names; for (auto& t : types) names.insert("/" + t); set<string> got; for (auto i = r.begin(); i != r.end(); ++i) got.insert(i.getName()); MC_CHECK(got == names, "types", "a new registry does not have the types that the plugins define"); }
            MC_CHECK(plugins_alive == n, "alive", mc::fmt("%d plugins while %d were made", plugins_alive, n));
            { int refused = refused_in.size() + refused_out.size(); refused_in.clear(); refused_out.clear(); MC_CHECK(plugins_alive == n - refused, "alive", "refused plugins"); }
        }
        MC_CHECK(plugins_alive == 0, "plugins left", mc::fmt("%d plugins are left", plugins_alive));
        if (round) MC_CHECK(mc::live_allocs == before, "leak", mc::fmt("%ld blocks left", mc::live_allocs - before));
    }
    c.step(n + 30); uint64_t h = n; for (int o : ops) h = h * 11 + o; c.state(h);
}
// all search paths out of directories with and without plugins
MC_BODY("C22", "paths")
{
    vector<string> dirs = plugin_dirs(); string scratch = getenv("MC_SCRATCH"); static string own;
    if (own.empty())
    {
        own = scratch + "/paths" + to_string(getpid()); mkdir(own.c_str(), 0700); mkdir((own + "/empty").c_str(), 0700); mkdir((own + "/junk").c_str(), 0700); mkdir((own + "/two").c_str(), 0700);
        ofstream(own + "/junk/x.so") << "this is no library"; ofstream(own + "/junk/y.txt") << "text"; mkdir((own + "/junk/sub.so").c_str(), 0700);
        // a library without entry point, a directory with two plugins
        symlink("/lib/x86_64-linux-gnu/libm.so.6", (own + "/junk/libm.so").c_str());
        symlink((dirs[1] + "/libtypeLang_tlb.so").c_str(), (own + "/two/b.so").c_str()); symlink((dirs[2] + "/libtypeLang_idl.so").c_str(), (own + "/two/a.so").c_str()); symlink((dirs[0] + "/libtypeLang_cSupport.so").c_str(), (own + "/two/not_a_plugin.txt").c_str());
    }
    vector<string> parts = { dirs[1], dirs[2], dirs[0], own + "/two", own + "/empty", own + "/junk", own + "/missing", "", own + "/junk/y.txt" };
    int max = c.thorough ? 4 : 3, n = 1 + c.choose(max, "length"); vector<int> p; for (int i = 0; i < n; ++i) { p.push_back(c.choose(parts.size(), "directory")); if (i == 0) c.unit(); }
    string path; set<string> expect; int dup = 0; for (int i = 0; i < n; ++i) { if (i) path += ":"; path += parts[p[i]]; if (p[i] == 0 || p[i] == 3) { dup += expect.count("tlb"); expect.insert("tlb"); } if (p[i] == 1 || p[i] == 3) expect.insert("idl"); }
    if (c.choose(2, "final colon")) path += ":";
    set_path(path);
    for (int round = 0; round < 2; ++round)
    {
        long before = mc::live_allocs;
        {
            Silent quiet; PluginManager::self m; c.step(3);
            auto has = [&](string f) { return outcome([&] { if (f == "tlbin") unique_ptr<Importer>(m->importer("tlb")); else unique_ptr<Exporter>(m->exporter(f)); return string("yes"); }); };
            MC_CHECK(has("tlb") == (expect.count("tlb") ? "yes" : "(not found)"), "paths", "TLB exporter: " + has("tlb") + " with the path " + path); MC_CHECK(has("tlbin") == (expect.count("tlb") ? "yes" : "(not found)"), "paths", "TLB importer: " + has("tlbin") + " with the path " + path);
            MC_CHECK(has("idl") == (expect.count("idl") ? "yes" : "(not found)"), "paths", "IDL exporter: " + has("idl") + " with the path " + path);
        }
        // plugins that are loaded twice are refused the second time; who owns them is not specified
        bool twice = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (p[i] < 4 && p[j] < 4) twice = true;
        if (round && !twice) MC_CHECK(mc::live_allocs == before, "leak", mc::fmt("%ld blocks left with the path %s", mc::live_allocs - before, path.c_str()));
    }
    set_path(plugin_path); c.state(mc::fmt("%d%zu", n, mc::hash(path)));
}

// ------------------------------------------------------------------ C24: threads
namespace
{
    // the writable data of the libraries as it was at the start, so that what is done on first use is done in every execution
    struct Cold
    {
        struct Part { char* at; vector<char> bytes; };
        vector<Part> parts;
        static int each(dl_phdr_info* i, size_t, void* p)
        {
            Cold& me = *static_cast<Cold*>(p);
            if (!strstr(i->dlpi_name, "libtypeL")) return 0;
            uintptr_t ro0 = 0, ro1 = 0;
            for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; ro1 = (ro0 + i->dlpi_phdr[k].p_memsz + 4095) & ~uintptr_t(4095); }
            for (int k = 0; k < i->dlpi_phnum; ++k)
            {
                auto& h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
                uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz; if (a < ro1 && a >= (ro0 & ~uintptr_t(4095))) a = ro1;
                if (a < e) { Part x; x.at = (char*)a; x.bytes.assign((char*)a, (char*)e); me.parts.push_back(x); }
            }
            return 0;
        }
        Cold() { dl_iterate_phdr(each, this); }
        void restore() { for (auto& p : parts) memcpy(p.at, p.bytes.data(), p.bytes.size()); }
    };
    struct In2 { int32_t x; int8_t y; };
    struct W { int32_t a; int8_t b; double d; vector<int32_t> v; string s; int32_t e; int16_t r[3]; vector<In2> in; };
    void define(Registry& r, string const& ns)
    {
        r.add(new Numeric("/int32_t", 4, Numeric::SInt)); r.add(new Numeric("/int16_t", 2, Numeric::SInt)); r.add(new Numeric("/int8_t", 1, Numeric::SInt)); r.add(new Numeric("/double", 8, Numeric::Float)); Container::createContainer(r, "/std/string", *r.get("/int8_t")); r.alias("/int32_t", "/int");
        Compound* in = new Compound(ns + "In"); in->addField("x", *r.get("/int32_t"), offsetof(In2, x)); in->addField("y", *r.get("/int8_t"), offsetof(In2, y)); in->setSize(sizeof(In2)); r.add(in);
        Enum* e = new Enum(ns + "E"); e->add("P", 0); e->add("Q", 1); r.add(e);
        r.build("/int16_t[3]"); Container::createContainer(r, "/std/vector", *r.get("/int32_t")); Container::createContainer(r, "/std/vector", *in);
        Compound* w = new Compound(ns + "W"); w->addField("a", *r.get("/int32_t"), offsetof(W, a)); w->addField("b", *r.get("/int8_t"), offsetof(W, b)); w->addField("d", *r.get("/double"), offsetof(W, d));
        w->addField("v", *r.get("/std/vector</int32_t>"), offsetof(W, v)); w->addField("s", *r.get("/std/string"), offsetof(W, s)); w->addField("e", *e, offsetof(W, e)); w->addField("r", *r.get("/int16_t[3]"), offsetof(W, r));
        w->addField("in", *r.get("/std/vector<" + ns + "In>"), offsetof(W, in)); w->setSize(sizeof(W)); r.add(w, "src");
        w->getMetaData().add("doc", "text"); r.alias(ns + "W", ns + "Alias"); r.build(ns + "W*"); r.build(ns + "Alias[2]");
    }
    struct Shared
    {
        Registry reg, other; W w, w2; vector<uint8_t> dumped, swapped; string tlb; config_set conf; MemoryLayout layout; CompileEndianSwapVisitor swap; Type const* plain;
        Type const& t() const { return *reg.get("/N/W"); }
        Shared()
        {
            define(reg, "/N/"); define(other, "/N/"); other.setDefaultNamespace("/N"); other.alias("/N/In", "/N/More");
            for (W* x : { &w, &w2 }) { x->a = 1; x->b = 2; x->d = 1.5; x->v = { 1, 2, 3 }; x->s = "text"; x->e = 1; x->r[0] = 4; x->r[1] = 5; x->r[2] = 6; x->in = { { 7, 8 }, { 9, 10 } }; }
            dumped = Typelib::dump(Value(&w, t())); tlb = PluginManager::save("tlb", reg); conf.set("k", "1"); config_set* child = new config_set(&conf); child->set("in", "2"); conf.insert("c", child);
            layout = layout_of(t()); plain = reg.get("/N/In"); swap.apply(*plain);
        }
    };
    struct Printer : ValueVisitor
    {
        ostringstream o; using ValueVisitor::visit_;
        Printer() : ValueVisitor(true) {}
        bool visit_(int8_t& v) { o << int(v) << ' '; return true; } bool visit_(int16_t& v) { o << v << ' '; return true; } bool visit_(int32_t& v) { o << v << ' '; return true; } bool visit_(double& v) { o << v << ' '; return true; }
        bool visit_(Enum::integral_type& v, Enum const& e) { o << e.get(v) << ' '; return true; }
    };
    string describe(Registry const& r) { ostringstream o; for (auto i = r.begin(); i != r.end(); ++i) o << i.getName() << '=' << i->getName() << i->getSize() << i->getCategory() << i.getSource() << i.isAlias() << i.isPersistent() << ';'; return o.str(); }
    struct Own { vector<uint8_t> m; Type const& t; Own(Type const& t) : m(t.getSize()), t(t) { Typelib::init(Value(&m[0], t)); } ~Own() { Typelib::destroy(Value(&m[0], t)); } Value v() { return Value(&m[0], t); } };
    const int READERS = 34;
    // what a thread does with its own objects and with shared ones, which it only reads
    string reader(Shared& s, int o)
    {
        Registry const& r = s.reg; Type const& t = s.t(); ostringstream out; Value v(&s.w, t), v2(&s.w2, t);
        switch (o)
        {
            case 0: return describe(r);
            case 1: for (auto i = r.begin("/N"); i != r.end("/N"); ++i) out << i.getName() << i->getMetaData().get().size(); for (auto i = s.other.begin(); i != s.other.end(); ++i) out << s.other.has(i.getName().substr(i.getName().rfind('/') + 1), false); return out.str();
            case 2: for (char const* n : { "/int", "/N/Alias", "/N/W*", "/nothing", "/N/W[3]", "/N/W**", "bool" }) out << r.has(n) << r.has(n, false) << (r.get(n) ? r.get(n)->getName() : "-"); return out.str();
            case 3: out << r.isSame(s.other) << s.other.isSame(r) << t.isSame(*s.other.get("/N/W")) << t.canCastTo(*s.other.get("/N/W")) << (t == *s.other.get("/N/Alias")) << t.isSame(*r.get("/N/In")); return out.str();
            case 4: { unique_ptr<Registry> m(r.minimal("/N/Alias")); return describe(*m); }
            case 5: { unique_ptr<Registry> m(s.other.minimal(r)); return describe(*m); }
            case 6: { multiset<string> n; for (auto x : r.reverseDepends(*r.get("/N/In"))) n.insert(x->getName()); for (auto x : t.dependsOn()) n.insert(x->getName()); for (auto& x : r.getAliasesOf(t)) n.insert(x); for (auto& x : n) out << x << ";"; return out.str(); }
            case 7: { Registry n; n.merge(r); n.merge(s.other); return describe(n); }
            case 8: { auto l = layout_of(t, true, false); return mc::fmt("%zu %zu %zu", l.size(), size_t(l.init_size()), mc::hash(&l.ops[0], 0)); }
            case 9: { auto b = Typelib::dump(v); return string(b.begin(), b.end()) == string(s.dumped.begin(), s.dumped.end()) ? "same" : "other"; }
            case 10: { vector<uint8_t> b; Typelib::dump(v, b, s.layout); ostringstream x; Typelib::dump(v, x); return mc::fmt("%zu %zu %zu", b.size(), x.str().size(), getDumpSize(v, s.layout)); }
            case 11: out << compare(v, v2) << compare(v2, v) << compare(v, v); return out.str();
            case 12: out << csv_header(t, "base") << "\n" << csv(t, &s.w, ",") << csv(t, &s.w2, " ", false); return out.str();
            case 13: { Printer p; p.apply(v); return p.o.str(); }
            case 14: { Own x(*s.plain), y(*s.plain); CompileEndianSwapVisitor sw(s.swap); sw.swap(Value(&s.w.in[0], *s.plain), x.v()); Typelib::copy(y.v(), Value(&s.w.in[1], *s.plain)); Typelib::endian_swap(y.v()); auto a = Typelib::dump(x.v()); auto b = Typelib::dump(y.v()); return string(a.begin(), a.end()) + string(b.begin(), b.end()); }
            case 15: { Own x(t); Typelib::copy(x.v(), v); out << compare(x.v(), v); Typelib::zero(x.v()); out << compare(x.v(), v); return out.str(); }
            case 16: { Own x(t); Typelib::load(x.v(), s.dumped); out << compare(x.v(), v); return out.str(); }
            case 17: { Own x(t); Typelib::init(&x.m[0], s.layout); Typelib::load(&x.m[0], t, s.dumped, s.layout); Typelib::copy(&x.m[0], &s.w, s.layout); out << compare(x.v(), v2); try { Typelib::load(x.v(), &s.dumped[0], 20); } catch (std::runtime_error& e) { out << e.what(); } return out.str(); }
            case 18: { auto& c = dynamic_cast<Container const&>(*r.get("/std/vector</int32_t>")); vector<int32_t> mine; int32_t k = 5; for (int i = 0; i < 3; ++i) c.push(&mine, Value(&k, c.getIndirection())); c.erase(&mine, Value(&k, c.getIndirection())); out << c.getElementCount(&s.w.v) << c.getElementCount(&mine) << mine.size() << c.kind(); return out.str(); }
            case 19: { Registry n; define(n, "/M/"); n.setDefaultNamespace("/M"); n.remove(*n.get("/M/In")); return describe(n); }
            case 20: { Registry n; define(n, "/N/"); map<string, pair<size_t, size_t>> sz; n.resize({ { "/N/In", 16 } }); return describe(n); }
            case 21: { Registry n; istringstream x(s.tlb); PluginManager::load("tlb", x, n); return describe(n); }
            case 22: return PluginManager::save("tlb", r);
            case 23: { config_set k; k.set("opaque_as_any", "1"); try { return PluginManager::save("idl", k, s.other); } catch (std::exception& e) { return string(e.what()); } }
            case 24: { Registry n; try { istringstream x("<typelib><compound name=\"/x\" size=\"4\"><field name=\"a\" type=\"/none\" offset=\"0\"/></compound></typelib>"); PluginManager::load("tlb", x, n); } catch (std::exception& e) { out << e.what(); } return out.str() + describe(n); }
            case 25: out << s.conf.exists("k") << s.conf.get<int>("k") << s.conf.get<string>("none", "d") << s.conf.child("c").get<int>("in") << s.conf.child("none").empty() << s.conf.children("c").size(); return out.str();
            case 26: for (char const* n : { "/a/b<c,d>/e", "/x", "a/b", "/a<b" }) out << isValidTypename(n, true) << getTypename(n) << getNamespace(n) << (n[1] == 'a' && n[2] == '/' ? getRelativeName(n, "/a") : string()) << getMinimalPathTo(n, "/a/c"); for (auto& x : splitTypename("/a<b/c>/d")) out << x; return out.str();
            case 27: out << Registry::null().getName() << TypeBuilder::getBaseTypename("/a*[2]") << (TypeBuilder::getBaseType(r, "/N/W*[4]") ? 1 : 0); return out.str();
            case 28: { config_set k; k.set("a", "1"); k.insert("a", "2"); k.insert("b", new config_set(&k)); out << k.get<list<string>>("a").size() << k.child("b").empty() << k.child("x").exists("y"); return out.str(); }
            case 29: { TypeDisplayVisitor d(out, "  "); d.apply(t); } for (auto& f : dynamic_cast<Compound const&>(t).getFields()) out << f.getName() << f.getOffset() << f.getType().getName() << f.getMetaData().get().size(); out << dynamic_cast<Enum const&>(*r.get("/N/E")).get("Q") << dynamic_cast<Enum const&>(*r.get("/N/E")).get(0) << dynamic_cast<Enum const&>(*r.get("/N/E")).names().size(); return out.str();
            case 30: { Own x(t); value_get_field(x.v(), "a"); Value f = value_get_field(v, "d"); out << f.getType().getName() << *static_cast<double*>(f.getData()); try { value_get_field(v, "none"); } catch (FieldNotFound& e) { out << e.name; } return out.str(); }
            case 31: { Registry n; n.add(new NullType("/X")); try { n.add(new NullType("/X")); } catch (std::exception& e) { out << e.what(); } try { n.alias("/Y", "/Z"); } catch (std::exception& e) { out << e.what(); } n.clear(); return out.str() + describe(n); }
            case 32: { vector<W> many(2, s.w); Own x(t); for (auto& m : many) { Typelib::copy(Value(&m, t), x.v()); out << compare(Value(&m, t), v); } Enum e("/own"); e.add("A", 3); e.add("B", e.getNextValue()); out << e.get("B"); return out.str(); }
            case 33: { Registry n; CXX::addStandardTypes(n); return describe(n); }
        }
        return "";
    }
}
namespace
{
void threads(Ctx& c, vector<int> const& ops, int held, int bound)
{
    static Cold* cold; static map<int, string>* expected; static Shared* shared;
    plugin_dirs();
    if (!cold)
    {
        // what belongs to other libraries is initialised here, before the threads
        cold = new Cold; shared = new Shared; expected = new map<int, string>; for (int o = 0; o < READERS; ++o) { (*expected)[o] = reader(*shared, o); if ((*expected)[o] != reader(*shared, o)) mc::fail("harness", "not deterministic"); }
    }
    cold->restore();
    unique_ptr<PluginManager::self> manager; if (held) manager.reset(new PluginManager::self);
    int n = ops.size(); vector<string> got(n);
    vector<function<void()>> bodies; for (int t = 0; t < n; ++t) bodies.push_back([&, t] { string x = reader(*shared, ops[t]); mt::Quiet q; got[t] = x; });
    mt::Stats s = mt::run(c, bodies, bound);
    c.step(n); c.count("accesses", s.accesses); c.count("synchronisations", s.syncs); c.count("preemptions", s.preemptions); c.count("schedules");
    for (int t = 0; t < n; ++t) MC_CHECK(got[t] == (*expected)[ops[t]], "result", mc::fmt("thread %d, operation %d: ", t, ops[t]) + got[t].substr(0, 300) + " instead of " + (*expected)[ops[t]].substr(0, 300));
    uint64_t h = held; for (int o : ops) h = h * 40 + o; c.state(h * 8 + s.preemptions);
}
}
MC_BODY("C24", "pairs")
{
    int a = c.choose(READERS, "operation of the first thread"), b = c.choose(READERS, "operation of the second thread"); if (b < a) throw mc::Prune();
    c.unit(); threads(c, { a, b }, c.choose(2, "plugins loaded before"), c.thorough ? 4 : 2);
}
MC_BODY("C24", "triples")
{
    static vector<int> const which = { 4, 20, 21, 22, 23, 24, 25, 18, 12, 31 };
    vector<int> ops; for (int i = 0; i < 3; ++i) { ops.push_back(c.pick(which, "operation")); if (i && ops[i] < ops[i - 1]) throw mc::Prune(); }
    c.unit(); threads(c, ops, c.choose(2, "plugins loaded before"), c.thorough ? 2 : 1);
}
