// An importer and an exporter that tell what they were called with (C35):
// "mc-record", and "mc-wrong", whose every use fails.
#include <ruby.h>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <fstream>
#include <sstream>

using namespace Typelib;
using namespace std;

namespace
{
    string last;
    int live = 0;
    struct Peek : utilmm::config_set
    {
        // keys in order, the values of each in their order, then the children
        static string dump(utilmm::config_set const& c)
        {
            string s = "{";
            for (auto& v: c.*(&Peek::m_values)) s += to_string(v.first.size()) + ":" + v.first + "=" + to_string(v.second.size()) + ":" + v.second + ";";
            for (auto& v: c.*(&Peek::m_children)) s += to_string(v.first.size()) + ":" + v.first + "->" + dump(*v.second) + ";";
            return s + "}";
        }
    };
    struct OtherError {};
    void raise(string const& how)
    {
        if (how == "runtime") throw std::runtime_error("as asked");
        if (how == "import") throw ImportError("file", "as asked", 3, 4);
        if (how == "typelib") throw Undefined("/nothing");
        if (how == "logic") throw std::out_of_range("as asked");
        if (how == "memory") throw std::bad_alloc();
    }
    struct Import : Importer
    {
        Import() { ++live; }
        ~Import() { --live; }
        void load(istream& s, utilmm::config_set const& config, Registry& registry)
        {
            last += "stream " + Peek::dump(config);
            string word, a, b;
            while (s >> word)
            {
                if (word == "type") { s >> a >> b; registry.add(new Numeric(a, atoi(b.c_str()), Numeric::UInt)); }
                else if (word == "alias") { s >> a >> b; registry.alias(a, b); }
                else if (word == "throw") { s >> a; raise(a); }
            }
        }
        void load(string const& path, utilmm::config_set const& config, Registry& registry)
        {
            last += "path " + path + " ";
            Importer::load(path, config, registry);
        }
    };
    struct Export : Exporter
    {
        Export() { ++live; }
        ~Export() { --live; }
        bool save(ostream& s, RegistryIterator const& t) { s << t.getName() << (t.isAlias() ? "=" + t->getName() : "") << "\n"; return true; }
        void save(ostream& s, utilmm::config_set const& config, Registry const& r)
        {
            if (config.exists("throw")) raise(config.get<string>("throw"));
            s << Peek::dump(config) << "\n";
            // a zero, and what is not UTF-8
            if (config.exists("binary")) s << string("a\0b\xff\n", 5);
            Exporter::save(s, config, r);
        }
    };
    struct ImportP : ImportPlugin { ImportP() : ImportPlugin("mc-record") {} Importer* create() { return new Import; } };
    struct ExportP : ExportPlugin { ExportP() : ExportPlugin("mc-record") {} Exporter* create() { return new Export; } };

    VALUE m_record(VALUE)
    {
        static PluginManager::self* manager = 0;
        if (!manager)
        {
            manager = new PluginManager::self;
            (*manager)->add(new ImportP);
            (*manager)->add(new ExportP);
        }
        last.clear();
        return INT2NUM(live);
    }
    VALUE m_recorded(VALUE) { return rb_str_new(last.data(), last.size()); }
}

void recorder_init(VALUE mMC)
{
    rb_define_module_function(mMC, "record", RUBY_METHOD_FUNC(m_record), 0);
    rb_define_module_function(mMC, "recorded", RUBY_METHOD_FUNC(m_recorded), 0);
}
