// Reference model of typelib's values: an abstract type tree with the C++
// memory layout, an abstract value tree, and writers/readers of raw memory that
// do not use typelib.  Shared by the value, container and layout harnesses.
#ifndef VERIF_MODEL_HH
#define VERIF_MODEL_HH
#include "mc.hh"
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/typebuilder.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/memory_layout.hh>
#include <typelib/pluginmanager.hh>
#include <lang/csupport/standard_types.hh>
#include <cstring>
#include <memory>

namespace model
{
    enum Kind { NUM, ENUM, NUL, OPQ, PTR, ARR, VEC, STR, COMP };
    struct MT;
    struct MField { std::string name; MT* type; size_t offset; };
    struct MT
    {
        Kind kind;
        std::string expr;                // unique description of the type
        size_t size, align;
        bool is_float, is_unsigned;
        MT* elem; size_t dim;
        std::vector<MField> fields;
        std::vector<int> symbols;        // enum values, sorted by symbol name
        Typelib::Type const* real;
        bool has_container, has_ptr, has_opaque, has_enum, has_zero_dim;
        int n_leaves;
    };

    struct MV
    {
        std::string bytes;               // NUM, ENUM, PTR, OPQ: raw bytes; STR: contents
        std::vector<MV> kids;            // ARR, VEC, COMP
        bool operator==(MV const& o) const { return bytes == o.bytes && kids == o.kids; }
        bool operator!=(MV const& o) const { return !(*this == o); }
    };

    typedef std::vector<uint8_t> RawVec;

    // Keeps the plugins loaded, and provides the standard types
    struct Universe
    {
        Typelib::PluginManager::self manager;
        Typelib::Registry* reg;
        std::map<std::string, MT*> types;
        Universe()
        {
            reg = new Typelib::Registry;
            Typelib::CXX::addStandardTypes(*reg);
        }
    };
    Universe& universe();

    MT* num(std::string const& name);                                  // "/int8_t"
    MT* enumeration(std::string const& name, std::vector<std::pair<std::string, int>> const& syms, size_t size = 4);
    MT* nul();
    MT* opaque(size_t size);
    MT* pointer(MT* to);
    MT* array(MT* of, size_t dim);
    MT* vec(MT* of);
    MT* str();
    // Explicit layout
    MT* compound(std::vector<std::pair<MT*, size_t>> const& fields, size_t size, std::string const& tag = "");
    enum Style { NATURAL, PACKED, GAPPY, TAIL };
    // Returns null if the style does not apply to these fields
    MT* compound(std::vector<MT*> const& fields, Style style);

    // --- memory
    void construct(MT* t, uint8_t* p);            // default-construct the containers, leave the rest
    void write(MT* t, MV const& v, uint8_t* p);   // containers must be constructed
    MV read(MT* t, uint8_t const* p);
    unsigned touch(MT* t, uint8_t const* p);      // reads everything, cheaply
    void destruct(MT* t, uint8_t* p);
    void mask(MT* t, std::vector<uint8_t>& out, size_t at = 0);  // 0 padding, 1 plain data, 2 container

    // --- reference wire format, -1 for bytes of unspecified value (padding)
    typedef std::vector<int> Wire;
    // merged: padding is part of the stream
    Wire encode(MT* t, MV const& v, bool merged = true, bool drop_trailing = true);
    // number of padding bytes at the end of the type, reached through compounds only
    size_t trailing(MT* t);
    bool matches(Wire const& w, std::vector<uint8_t> const& got, std::string* why = nullptr);
    // Reference decoder. Returns false on malformed input
    bool decode(MT* t, std::vector<uint8_t> const& in, MV& out, bool& too_long);
    std::vector<size_t> count_positions(MT* t, MV const& v, std::vector<size_t>* elem_sizes = nullptr);

    std::string show(MT* t, MV const& v);

    // --- deterministic contents
    // Fills the leaves with a byte pattern; sizes of containers from sz
    struct Filler
    {
        unsigned pattern; unsigned counter;
        std::function<size_t(MT*)> sz;
        MV fill(MT* t);
    };
    MV fill(MT* t, unsigned pattern, std::function<size_t(MT*)> sz);
    // container sizes chosen by the explorer for the first `free_sites`
    // instances, rotating for the others
    std::function<size_t(MT*)> chosen_sizes(mc::Ctx& c, std::vector<size_t> const& sizes, int free_sites);
    std::function<size_t(MT*)> fixed_size(size_t n);

    // Aligned memory for one value, exactly as big as the type (so that
    // AddressSanitizer sees any access outside)
    extern uint8_t padding; // what write() leaves in the padding of the elements of vectors
    struct Mem
    {
        MT* t; uint8_t* p; bool live; uint8_t pad; // pad: what the padding holds, inside of containers as well
        Mem(MT* t, uint8_t fill = 0xA5, bool constructed = true);
        ~Mem();
        void set(MV const& v) { padding = pad; write(t, v, p); padding = 0x5A; }
        MV get() const { return read(t, p); }
        void release() { if (live) { destruct(t, p); live = false; } }
        Typelib::Value value() const { return Typelib::Value(p, *t->real); }
    private:
        Mem(Mem const&); Mem& operator=(Mem const&);
    };
}
#endif
