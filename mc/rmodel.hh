// Reference model of a type registry: plain data, read from and written to
// real registries through the public API only.
#ifndef VERIF_RMODEL_HH
#define VERIF_RMODEL_HH

#include "mc.hh"
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace rm
{
    typedef std::map<std::string, std::set<std::string>> Meta;
    struct Fld
    {
        std::string name, type; size_t off; Meta meta;
        bool operator==(Fld const& o) const { return name == o.name && type == o.type && off == o.off && meta == o.meta; }
    };
    struct Def
    {
        char cat;          // n e c a p v o 0
        size_t size; int num; std::string kind, elem; size_t dim;
        std::vector<Fld> fields; std::map<std::string, int> syms;
        Meta meta; std::string source; bool persistent;
        Def() : cat('?'), size(0), num(0), dim(0), persistent(true) {}
        bool operator==(Def const& o) const
        {
            return cat == o.cat && size == o.size && num == o.num && kind == o.kind && elem == o.elem && dim == o.dim &&
                fields == o.fields && syms == o.syms && meta == o.meta && source == o.source && persistent == o.persistent;
        }
    };
    struct Alias
    {
        std::string to; bool persistent; std::string source;
        bool operator==(Alias const& o) const { return to == o.to && persistent == o.persistent && source == o.source; }
    };
    struct RM
    {
        std::map<std::string, Def> types;
        std::map<std::string, Alias> aliases;
        bool operator==(RM const& o) const { return types == o.types && aliases == o.aliases; }
        // the canonical name behind a registered name, or ""
        std::string resolve(std::string const& name) const;
        bool has(std::string const& name) const { return !resolve(name).empty(); }

        // Construction. They do what the library documents, derived aliases included.
        void numeric(std::string const& name, size_t size, int category);
        void enumeration(std::string const& name, std::map<std::string, int> const& syms);
        void opaque(std::string const& name, size_t size);
        void null(std::string const& name);
        void compound(std::string const& name, std::vector<Fld> const& fields, size_t size = 0);
        std::string pointer(std::string const& to);
        std::string array(std::string const& of, size_t dim);
        std::string vec(std::string const& of);
        void alias(std::string const& base, std::string const& name, bool persistent = true, std::string const& source = "");
        // the name of a derived type, given another name of what it is derived from
        std::string derived(Def const& d, std::string const& elem) const;
        // adds the aliases of d that follow from the aliases of its element
        void close(std::string const& name);

        std::set<std::string> depends(std::string const& type) const;
        std::set<std::string> rdepends(std::string const& type) const; // transitive, itself included
        std::set<std::string> aliases_of(std::string const& type) const;
        void remove(std::string const& type);
        // builds a type by its canonical or aliased derived name; false if there is no such base type
        std::string build(std::string const& name);
        bool can_build(std::string const& name) const;
        std::string text() const;
    };

    // Reads a registry, checking that it is consistent with itself. Skips the
    // types in `without`.
    RM snapshot(Typelib::Registry const& r, std::string const& id);
    // Creates the types of a model in a registry
    void create(RM const& m, Typelib::Registry& r);
    // Structural equality of types (names matter only for opaques and nulls)
    bool same(RM const& l, std::string const& a, RM const& r, std::string const& b);
    bool castable(RM const& l, std::string const& a, RM const& r, std::string const& b);
    // Merges; false if a definition differs. `into` is only updated on success
    bool merge(RM& into, RM const& from);
    // What differs, for messages
    std::string diff(RM const& want, RM const& got);
    std::string text(std::string const& name, Def const& d);
    std::string base_and_modifiers(std::string const& name, std::vector<std::pair<char, size_t>>& mods);
    bool name_less(std::string const& a, std::string const& b);
}

#endif
