// Registries built through the C++ API by the same operations as those of the
// Ruby bindings, and their description as Ruby objects (C31).
#include <ruby.h>
#include <ruby/encoding.h>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <lang/csupport/standard_types.hh>
#include <functional>
#include <memory>
#include <sstream>

using namespace Typelib;
using namespace std;

namespace
{
    struct Twin
    {
        shared_ptr<Registry> r;
        set<Type*> removed;
        Twin(Registry* r = new Registry) : r(r) {}
        ~Twin() { for (Type* t: removed) delete t; }
    };
    void twin_free(void* p) { delete static_cast<Twin*>(p); }
    VALUE cTwin;
    VALUE twin_alloc(VALUE k) { return Data_Wrap_Struct(k, 0, twin_free, new Twin); }
    Twin& twin(VALUE v) { return *static_cast<Twin*>(DATA_PTR(v)); }

    string S(VALUE v) { v = rb_obj_as_string(v); return string(RSTRING_PTR(v), RSTRING_LEN(v)); }
    VALUE U(string const& s) { return rb_utf8_str_new(s.data(), s.size()); }
    VALUE Y(char const* s) { return ID2SYM(rb_intern(s)); }

    VALUE names(set<string> const& n) { VALUE a = rb_ary_new(); for (auto& s: n) rb_ary_push(a, U(s)); return a; }
    template<typename T> set<string> names_of(T const& ts) { set<string> n; for (Type const* t: ts) n.insert(t->getName()); return n; }

    VALUE metadata(MetaData const& m)
    {
        VALUE h = rb_hash_new();
        for (auto& kv: m.get()) rb_hash_aset(h, U(kv.first), names(kv.second));
        return h;
    }

    VALUE details(Type const& t, VALUE& kind)
    {
        switch (t.getCategory())
        {
            case Type::Numeric: {
                kind = Y("numeric");
                Numeric const& n = dynamic_cast<Numeric const&>(t);
                return Y(n.getNumericCategory() == Numeric::SInt ? "sint" : n.getNumericCategory() == Numeric::UInt ? "uint" : "float");
            }
            case Type::Enum: {
                kind = Y("enum");
                VALUE h = rb_hash_new();
                for (auto& v: dynamic_cast<Enum const&>(t).values()) rb_hash_aset(h, U(v.first), INT2NUM(v.second));
                return h;
            }
            case Type::Compound: {
                kind = Y("compound");
                VALUE a = rb_ary_new();
                for (auto& f: dynamic_cast<Compound const&>(t).getFields())
                    rb_ary_push(a, rb_ary_new_from_args(4, U(f.getName()), INT2NUM(f.getOffset()), U(f.getType().getName()), metadata(f.getMetaData())));
                return a;
            }
            case Type::Array: {
                kind = Y("array");
                Array const& n = dynamic_cast<Array const&>(t);
                return rb_ary_new_from_args(2, SIZET2NUM(n.getDimension()), U(n.getIndirection().getName()));
            }
            case Type::Pointer: {
                kind = Y("pointer");
                return U(dynamic_cast<Indirect const&>(t).getIndirection().getName());
            }
            case Type::Container: {
                kind = Y("container");
                Container const& n = dynamic_cast<Container const&>(t);
                return rb_ary_new_from_args(2, U(n.kind()), U(n.getIndirection().getName()));
            }
            case Type::Opaque: kind = Y("opaque"); return Qnil;
            case Type::NullType: kind = Y("null"); return Qnil;
            default: kind = Y("other"); return Qnil;
        }
    }

    VALUE dump(VALUE self)
    {
        Registry const& r = *twin(self).r;
        VALUE h = rb_hash_new();
        for (RegistryIterator it = r.begin(); it != r.end(); ++it)
        {
            Type const& t = *it;
            VALUE kind, d = details(t, kind);
            rb_hash_aset(h, U(it.getName()), rb_ary_new_from_args(10,
                it.isAlias() ? Qtrue : Qfalse, U(t.getName()), SIZET2NUM(t.getSize()), kind, d, metadata(t.getMetaData()),
                r.find(t.getName()).getSource().empty() ? Qnil : U(r.find(t.getName()).getSource()), names(names_of(t.dependsOn())), names(names_of(r.reverseDepends(t))),
                names(r.getAliasesOf(t))));
        }
        return h;
    }

    // calls f, and returns the message of the exception it throws
    VALUE guarded(function<VALUE()> const& f)
    {
        try { return f(); }
        catch (std::exception const& e) { return rb_ary_new_from_args(2, Y("refused"), rb_str_new_cstr(e.what())); }
    }

    Type& need(Registry& r, string const& name)
    {
        Type* t = r.get_(name);
        if (!t) throw runtime_error("no type " + name);
        return *t;
    }

    VALUE apply(int argc, VALUE* a, VALUE self)
    {
        Twin& tw = twin(self);
        Registry& r = *tw.r;
        string op = rb_id2name(SYM2ID(a[0]));
        return guarded([&]() -> VALUE {
            auto add = [&](Type* raw) { unique_ptr<Type> t(raw); r.add(raw, true, ""); t.release(); return Qnil; };
            if (op == "numeric")
                return add(new Numeric(S(a[1]), NUM2INT(a[2]), a[3] == Y("sint") ? Numeric::SInt : a[3] == Y("uint") ? Numeric::UInt : Numeric::Float));
            if (op == "enum")
            {
                unique_ptr<Enum> e(new Enum(S(a[1])));
                for (long i = 0; i < RARRAY_LEN(a[2]); ++i)
                    e->add(S(rb_ary_entry(rb_ary_entry(a[2], i), 0)), NUM2INT(rb_ary_entry(rb_ary_entry(a[2], i), 1)));
                if (NUM2INT(a[3])) e->setSize(NUM2INT(a[3]));
                return add(e.release());
            }
            if (op == "compound")
            {
                unique_ptr<Compound> e(new Compound(S(a[1])));
                for (long i = 0; i < RARRAY_LEN(a[2]); ++i)
                {
                    VALUE f = rb_ary_entry(a[2], i);
                    e->addField(S(rb_ary_entry(f, 0)), need(r, S(rb_ary_entry(f, 1))), NUM2INT(rb_ary_entry(f, 2)));
                }
                if (NUM2INT(a[3])) e->setSize(NUM2INT(a[3]));
                return add(e.release());
            }
            if (op == "opaque") return add(new OpaqueType(S(a[1]), NUM2INT(a[2])));
            if (op == "null") return add(new NullType(S(a[1])));
            if (op == "container")
            {
                Container const& c = Container::createContainer(r, S(a[1]), need(r, S(a[2])));
                if (NUM2INT(a[3])) r.get_(c).setSize(NUM2INT(a[3]));
                return Qnil;
            }
            if (op == "build") { if (!r.build(S(a[1]), NUM2INT(a[2]))) throw runtime_error("not found"); return Qnil; }
            if (op == "alias") { r.alias(S(a[2]), S(a[1])); return Qnil; }
            if (op == "remove_alias") { r.removeAlias(S(a[1])); return Qnil; }
            if (op == "clear_aliases") { r.clearAliases(); return Qnil; }
            if (op == "remove")
            {
                auto gone = r.remove(need(r, S(a[1])));
                tw.removed.insert(gone.begin(), gone.end());
                return names(names_of(gone));
            }
            if (op == "merge") { r.merge(*twin(a[1]).r); return Qnil; }
            if (op == "load")
            {
                istringstream in(S(a[1]));
                utilmm::config_set config;
                PluginManager::load("tlb", in, config, r);
                return Qnil;
            }
            if (op == "resize")
            {
                map<string, size_t> sizes;
                for (long i = 0; i < RARRAY_LEN(a[1]); ++i)
                    sizes[S(rb_ary_entry(rb_ary_entry(a[1], i), 0))] = NUM2INT(rb_ary_entry(rb_ary_entry(a[1], i), 1));
                r.resize(sizes);
                return Qnil;
            }
            if (op == "standard") { CXX::addStandardTypes(r); return Qnil; }
            if (op == "metadata" || op == "field_metadata")
            {
                Type& t = need(r, S(a[1]));
                MetaData& m = op == "metadata" ? t.getMetaData() : dynamic_cast<Compound&>(t).getField(S(a[4]))->getMetaData();
                if (NIL_P(a[2])) { m.clear(); return Qnil; }
                m.clear(S(a[2]));
                if (!NIL_P(a[3]))
                {
                    MetaData::Values v;
                    for (long i = 0; i < RARRAY_LEN(a[3]); ++i) v.insert(S(rb_ary_entry(a[3], i)));
                    m.add(S(a[2]), v);
                }
                return Qnil;
            }
            fprintf(stderr, "no operation %s\n", op.c_str()); abort();
        });
    }

    VALUE wrap(Registry* r) { return Data_Wrap_Struct(cTwin, 0, twin_free, new Twin(r)); }
    VALUE minimal(VALUE self, VALUE what, VALUE aliases)
    {
        Registry& r = *twin(self).r;
        return guarded([&] {
            if (RTEST(rb_obj_is_kind_of(what, cTwin))) return wrap(r.minimal(*twin(what).r, RTEST(aliases)));
            return wrap(r.minimal(S(what), RTEST(aliases)));
        });
    }
    VALUE xml(VALUE self)
    {
        utilmm::config_set config;
        return guarded([&] { return U(PluginManager::save("tlb", config, *twin(self).r)); });
    }
    VALUE casts(VALUE self, VALUE from, VALUE to)
    {
        Registry& r = *twin(self).r;
        Type const& a = *r.get(S(from)), &b = *r.get(S(to));
        return INT2NUM((a.canCastTo(b) ? 1 : 0) + (a == b || a.isSame(b) ? 2 : 0));
    }
}

void twin_init(VALUE mMC)
{
    cTwin = rb_define_class_under(mMC, "Twin", rb_cObject);
    rb_define_alloc_func(cTwin, twin_alloc);
    rb_define_method(cTwin, "dump", RUBY_METHOD_FUNC(dump), 0);
    rb_define_method(cTwin, "apply", RUBY_METHOD_FUNC(apply), -1);
    rb_define_method(cTwin, "minimal", RUBY_METHOD_FUNC(minimal), 2);
    rb_define_method(cTwin, "xml", RUBY_METHOD_FUNC(xml), 0);
    rb_define_method(cTwin, "relation", RUBY_METHOD_FUNC(casts), 2);
}
