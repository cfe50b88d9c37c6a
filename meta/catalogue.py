"""The properties, the harness that decides each, and its bounds"""
HARNESSES = {
    "h_values": dict(sources=["mc.cc", "model.cc", "h_values.cc"]),
    "h_values2": dict(sources=["mc.cc", "model.cc", "h_values2.cc"]),
    "h_registry": dict(sources=["mc.cc", "rmodel.cc", "h_registry.cc"]),
    "h_types": dict(sources=["mc.cc", "rmodel.cc", "h_types.cc"]),
    "h_names": dict(sources=["mc.cc", "h_names.cc"]),
    "h_tlb": dict(sources=["mc.cc", "rmodel.cc", "h_tlb.cc"], ldflags=["-lxml2"]),
    "h_misc": dict(sources=["mc.cc", "rmodel.cc", "h_misc.cc"], ldflags=["-lxml2"]),
    "h_threads": dict(sources=["h_threads.cc", "rmodel.cc", "mc.cc", "mt.cc"], flavor="sched", uninstrumented=["mc.cc", "mt.cc"]),
    "h_ruby": dict(sources=["mc.cc", "h_ruby.cc", "twin.cc", "recorder.cc"], ruby=True, stack=8 << 20),
    "h_idl": dict(sources=["mc.cc", "rmodel.cc", "h_idl.cc"]),
}
PROPS = {}

EXPL = "stateless model checking: exhaustive bounded enumeration of executions of the real code against a reference model"
TRUST = ("Exhaustive within the stated bounds only; trusts the reference model (mc/model.cc), the compiler, libstdc++ and "
         "AddressSanitizer, under which the code runs.")


def P(pid, **kw):
    kw.setdefault("technique", EXPL)
    kw.setdefault("level", "model_checking")
    kw.setdefault("note", TRUST)
    PROPS[pid] = kw


GRAMMAR = ("types: every leaf out of int8/int32/string/padded compounds/vector/enum/uint16/double/uint64 wrapped in every chain "
           "of 3 (thorough 4) contexts (array of 0/1/2/3, vector, compound positions before/after other fields and containers, packed, "
           "gaps, tail padding); every compound of up to 3 (4) fields over 8 field types and 4 layouts; arrays and vectors of "
           "every size of a list around powers of two up to 16384 (100000) over 7 element types; values: container sizes from "
           "{0,1,2} for the first two containers met, 2 byte patterns")

P("C01",
  title="Marshalling a value and loading it back gives an equal value",
  statement="For every type without pointer or opaque and every valid value of it, dumping the value and loading the resulting bytes "
            "gives a value with exactly the same contents, whatever the destination contained before (freshly initialised, or "
            "any other valid value) and whichever of the load and dump variants is used, with the default memory layout or the same "
            "non-default one on both sides. Loading consumes exactly the bytes that were dumped, leaves the source untouched, and "
            "releases everything it replaces.",
  over=["inputs", "histories"],
  quant="all types built from numerics, enums, arrays, compounds with any padding, vectors and strings, and all their values, prior "
        "destination contents, memory layout flags",
  why="test_marshalling.cc and test_containers.cc round-trip a handful of hand-written structs; the layout is a program computed from "
      "the type, so interactions (container after padding in an array of compounds ...) are untested.",
  files=["typelib/value_ops.cc", "typelib/value_ops_details.hh", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  mech=[("dump and load interpret the memory layout program", "typelib/value_ops.cc"),
        ("layout construction and simplification", "typelib/memory_layout.cc"),
        ("container bulk or element-wise marshalling", "lang/csupport/containers.cc")],
  harness="h_values", bounds=GRAMMAR + "; 4 prior destination states x 7 dump/load variants")

P("C02",
  title="Every sink receives the same documented bytes, and their announced count",
  statement="Dumping a value to a byte vector (appending), raw buffer, file descriptor, FILE*, std::ostream or OutputStream, from a "
            "value or from a raw pointer and layout, delivers the same bytes: the plain data in memory order, and for each container a "
            "64-bit element count followed by its elements. The size announced beforehand is exactly the number of bytes "
            "delivered, and a raw buffer of exactly that size is filled without being overrun. Layouts that exclude inner padding or "
            "keep the trailing one do exactly that.",
  over=["inputs", "configurations"],
  quant="all types and values of C01, all dump entry points, all four combinations of the padding flags",
  why="Tests check one or two sinks with fixed structures and compare sizes for those only.",
  files=["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  mech=[("output streams and the byte counter share the layout interpreter", "typelib/value_ops.cc"),
        ("container element count prefix", "lang/csupport/containers.cc")],
  harness="h_values", bounds=GRAMMAR + "; 16 sink variants x 4 layout flavours")

P("C03",
  title="Malformed marshalled data is rejected without touching foreign memory",
  statement="Loading from a buffer that is too short for the value it announces is rejected with an exception, as is one "
            "with trailing bytes beyond the value; no byte outside the buffer is read, none outside the destination value is written, "
            "whatever the element counts say. After a rejection the destination is still a valid value which can be read, "
            "loaded again and destroyed without leak.",
  over=["inputs"],
  quant="all truncations, extensions and element-count corruptions of the marshalled form of all types and values in the C01 grammar",
  why="Tests try one or two truncated buffers for two fixed types; memory errors need every cut position and count value.",
  files=["typelib/value_ops.cc", "lang/csupport/containers.cc"],
  mech=[("bounds check of the input stream", "typelib/value_ops.cc"), ("vector resize and element-wise load", "lang/csupport/containers.cc")],
  harness="h_values", bounds=GRAMMAR + " (depth 2); every truncation length (first and last 12 and the neighbourhood of each count "
  "for long data), extensions, and 10 corrupted values for each element count, through each load variant; huge allocations are refused")

P("C04",
  title="A failing or short sink is always reported",
  statement="When a write to the destination of a dump is interrupted, short or fails at any point, either every byte is eventually "
            "delivered in order or the failure is reported to the caller; output is never silently lost or duplicated. A raw buffer "
            "which is too small is reported and never overrun, and the source value stays intact.",
  over=["fault_sequences", "inputs"],
  quant="every position of a failing, interrupted or short write in the sequence of writes of a dump (permanent failures fail all later writes too), all buffer sizes below the needed one",
  why="No test injects a failing or short write.",
  files=["typelib/value_ops.cc"],
  mech=[("error check of fd/FILE/ostream streams", "typelib/value_ops.cc"), ("buffer bounds check", "typelib/value_ops.cc")],
  harness="h_values", technique="fault enumeration under a exhaustive stateless explorer of the real code (interposed write, fopencookie, streambuf)",
  bounds=GRAMMAR + " (depth 2); at each write call of the fd sink each of EIO, ENOSPC (permanent), EINTR, EAGAIN, half, all but one byte, "
         "one byte, zero bytes; each failing call of an OutputStream; FILE and ostream accepting every number of bytes below the total; "
         "every too small raw buffer size")


P("C05",
  title="Memory layouts describe every byte of a type exactly once",
  statement="The memory layout computed for a type covers, in order, each byte of the plain data, each container and nothing else, "
            "whatever the nesting of arrays, containers and compounds and whatever the layout flags; bytes it skips are padding or "
            "opaque data, merging skips and copies only turns skipped padding into copied bytes, and only trailing padding is "
            "removed. Its initialisation part initialises every container and gives every enum its first symbol. A layout is "
            "refused if and only if the type involves a pointer or an opaque that was not explicitly accepted, or contains itself through a container. Layouts produced by the "
            "library always pass their own validation.",
  over=["inputs", "configurations"],
  quant="all types including pointers and opaques at any depth, all combinations of accept_pointers, accept_opaques, merge_skip_copy, "
        "remove_trailing_skips, plus the raw (unsimplified) layout",
  why="test_memory_layout.cc compares the bytecode of about ten fixed types; the simplification pass has state carried across "
      "operations, which only unusual sequences reveal.",
  files=["typelib/memory_layout.cc", "typelib/memory_layout.hh"],
  mech=[("layout construction", "typelib/memory_layout.cc"), ("simplification and merging", "typelib/memory_layout.cc")],
  harness="h_values2", bounds=GRAMMAR + ", with pointers and opaques among the leaves and pointers among the contexts; 20 layout flavours for each type, "
  "compared byte by byte with the layout derived from the type; all graphs of 3 compounds with up to two fields out of 13 for recursive types")

P("C06",
  title="Init, zero, copy, compare and destroy treat a value as the sum of its parts",
  statement="Initialising memory gives empty containers and enums holding their first symbol; zeroing gives a valid value of zeros and empty "
            "containers. Copying makes the destination equal to the source, independent of it, and leaves bytes outside the value "
            "untouched. Comparing two values of the same type answers whether all their parts are equal, for every single "
            "elementary difference, and ignores padding. Comparing or copying values of incompatible types is refused. Destroying "
            "releases everything. All of this holds for values holding containers at any depth.",
  over=["inputs", "histories"],
  quant="all types and values of C01 plus pointers and opaques for the type checks; all single differences between two values",
  why="Tests compare one or two values of hand-written structs; a comparison which ignores one position is invisible to them.",
  files=["typelib/value_ops.cc", "typelib/value_ops_details.hh", "lang/csupport/containers.cc", "typelib/value.cc"],
  mech=[("init/zero/copy/destroy interpret the layout", "typelib/value_ops.cc"), ("compare walks both types", "typelib/value_ops.cc"),
        ("per-container copy, compare, destroy", "lang/csupport/containers.cc")],
  harness="h_values2", bounds=GRAMMAR + " (depth 2 for all values, 3 for fixed container sizes); every elementary difference (each data byte, each "
  "element count) of each value of up to a few hundred parts, the positions around powers of two beyond")

P("C07",
  title="Containers behave as sequences under every history of operations",
  statement="After any sequence of push, erase, delete_if, clear, copy, setElement and reload on vectors and strings, "
            "the container holds exactly the elements a mathematical sequence would hold, in order. Erase removes "
            "the first equal element and tells whether there was one; delete_if presents each element once, in order, and removes those "
            "selected. Elements may be taken from the container itself. Copies are independent. Values of "
            "another type are refused without effect, and no operation leaks or touches foreign memory.",
  over=["histories", "inputs"],
  quant="all operation sequences and all element types, nested containers included",
  why="test_containers.cc performs one fixed history per operation; reallocation, aliasing and element destruction depend on the history.",
  files=["lang/csupport/containers.cc", "lang/csupport/containers.hh"],
  mech=[("vector storage in a byte vector with explicit element construction", "lang/csupport/containers.cc"),
        ("string operations", "lang/csupport/containers.cc")],
  harness="h_values2", bounds="vectors of 9 element types (scalars, compounds with padding, strings, vectors, compounds of containers) and strings; all "
  "sequences of 5 (thorough 6) operations out of 14 on a pair of containers; growth to 70 (700) elements in 5 ways; insertion of "
  "each wrong type")

P("C18",
  title="Endianness swapping reverses every scalar and nothing else",
  statement="Swapping a value in place reverses the bytes of each numeric and enum it holds, at any depth of arrays, "
            "compounds and containers, leaves the structure alone, and doing it twice restores the value. The compiled swap "
            "gives the same result from a source it does not modify, for every type without pointer, opaque and container, and refuses "
            "the others. The scalar helpers reverse the bytes for all widths.",
  over=["inputs"],
  quant="all types built from numerics, enums, arrays, compounds with any padding and (in place) containers, and their values",
  why="test_endianness.cc swaps one flat and one nested structure.",
  files=["typelib/endianness.cc", "typelib/endianness.hh"],
  mech=[("compiled swap program", "typelib/endianness.cc"), ("in-place visitor", "typelib/endianness.hh")],
  harness="h_values2", bounds=GRAMMAR + "; all sequences of up to 5 (6) numerics of 4 widths, plain and in 3 nestings; all byte values at all "
  "positions for the scalar helpers")

P("C19",
  title="CSV lines line up with the CSV header",
  statement="For every type without container, the CSV header has one column per elementary field, named by the path to it, and "
            "each CSV line has exactly the same columns, showing the value of that very field: numbers that read back to the same value, "
            "enums by symbol (or number if they have none), bytes as number or character as requested, opaques as their "
            "type. The separator is used between columns only, and output does not depend on what was output before.",
  over=["inputs", "configurations"],
  quant="all types built from numerics, enums, opaques, pointers, arrays and compounds, values, separators, character modes",
  why="No test covers CSV output.",
  files=["typelib/csvoutput.cc", "typelib/csvoutput.hh"],
  mech=[("header visitor", "typelib/csvoutput.cc"), ("line visitor", "typelib/csvoutput.cc")],
  harness="h_values2", bounds="16 leaves in every chain of 3 (4) contexts, flat compounds of up to 3 (4) fields, 64 (256) bit patterns of every scalar, "
  "all byte values, enum values inside and outside of the symbols; 3 separators x 2 character modes")

P("C25",
  title="Visitors reach every part of a value once, in order, at its own address",
  statement="Visiting a value presents each field, element (of arrays, vectors and strings, including nested ones), "
            "pointed-to object and scalar exactly once, in order, with its own type and address; visiting a type presents each of its "
            "parts. Looking up a field by name gives the address and type declared for it, and is refused "
            "for unknown names. Casting a simple value works for its exact type only.",
  over=["inputs"],
  quant="all types and values, pointers and opaques included",
  why="test_value.cc visits three fixed types.",
  files=["typelib/value.cc", "typelib/typevisitor.cc", "typelib/value.hh", "typelib/value_cast.hh"],
  mech=[("value dispatch", "typelib/value.cc"), ("type dispatch", "typelib/typevisitor.cc"), ("element visit", "lang/csupport/containers.cc")],
  harness="h_values2", bounds=GRAMMAR + " (depth 2), with pointers and opaques")

RM_TRUST = ("Exhaustive within the stated bounds only; trusts the reference model of a registry (mc/rmodel.cc), the compiler, libstdc++ "
            "and AddressSanitizer, under which the code runs.")

P("C08",
  title="A name designates the same type whatever the history of the registry",
  statement="At any time a registry contains exactly the types and aliases that were added and not removed, and looking up a name "
            "depends on these and on the default namespace only: an absolute name designates the type or alias of "
            "that name, a relative name the one in the innermost of the namespaces enclosing the default one which has it. Adding a name "
            "twice, aliasing an unknown type, removing what is not an alias or setting an invalid namespace is refused and changes nothing. "
            "Type objects keep their identity as long as they are registered. Importing a namespace makes its names available "
            "with the requested priority, until the default namespace is set again.",
  over=["histories", "inputs"],
  quant="all sequences of add, alias, build, remove, removeAlias, clearAliases, clear, merge and setDefaultNamespace, and all names",
  why="test_registry.cc looks up a few names after one fixed history; lookups go through an incrementally maintained map which only "
      "goes wrong after particular orders of operations.",
  files=["typelib/registry.cc", "typelib/registry.hh"],
  mech=[("incremental relative name map", "typelib/registry.cc"), ("rebuild on namespace change and removals", "typelib/registry.cc")],
  harness="h_registry", note=RM_TRUST,
  bounds="all sequences of up to 5 (thorough 6) effective operations out of 26 over types, aliases and derived types in 4 nested namespaces, 37 "
  "names looked up after each; all orders of insertion of up to 5 (6) homonyms under 6 default namespaces; all sets of 8 types x 5 "
  "default x 5 imported namespaces x both priorities")

P("C09",
  title="Aliases and derived types can be declared in any order",
  statement="Whatever the order in which aliases are declared and arrays, pointers and vectors are built, a registry holds the same types, and "
            "every alias of a type gives access, by the name derived from the alias, to each type derived from it, at any "
            "depth. has() accepts a derived name exactly when build() can build it; build() returns the type whose structure, "
            "dimensions and size the name spells, and the same object for equal names and for aliases of it.",
  over=["histories", "inputs"],
  quant="all interleavings of alias declarations and derivations, all derived names",
  why="Tests alias one type before or after one derivation; the propagation is recursive and triggered from two sides.",
  files=["typelib/registry.cc", "typelib/typemodel.cc", "typelib/typebuilder.cc", "lang/csupport/containers.cc"],
  mech=[("modifiedDependencyAliases on alias() and add()", "typelib/registry.cc"), ("derived names", "typelib/typebuilder.cc")],
  harness="h_registry", note=RM_TRUST,
  bounds="all orders of up to 5 (6) events among 9 derivations and 6 aliases; all names made of 9 bases and up to 4 (5) modifiers out of 6")

P("C10",
  title="Merging registries gives their union, or is refused if they disagree",
  statement="Merging a registry into another succeeds if and only if each name they share has the same definition in both; the result "
            "then contains all types and aliases of both, with the same structure, built from the target's own objects "
            "only, existing types being kept, together with the union of all metadata and the known source IDs. The merged "
            "registry is not modified. Merging again changes nothing, and the result does not depend on the order of merges. "
            "A refused merge leaves the existing types as they were and the target registry consistent. Merging a single type "
            "brings its dependencies and nothing else.",
  over=["inputs", "histories"],
  quant="all pairs and triples of registries with compounds, enums, opaques, recursive and mutually recursive types, arrays, pointers, vectors, aliases",
  why="test_registry.cc merges a few hand-made registries; recursion, aliases and partial overlaps interact.",
  files=["typelib/registry.cc", "typelib/typemodel.cc"],
  mech=[("recursive merge with a recursion stack", "typelib/typemodel.cc"), ("alias, source and metadata merge", "typelib/registry.cc")],
  harness="h_registry", note=RM_TRUST,
  bounds="registries made of a first type (8 definitions), a second using it (7 ways), a third possibly recursive (5 ways), derived types (8) and aliases (6), "
  "under 3 namings which reverse the iteration order: pairs, triples in all orders, subsets into wholes, metadata and source "
  "decorations, alias against type clashes, single types")

P("C11",
  title="A minimal registry contains what is needed and nothing else",
  statement="The minimal registry of a type contains this type, everything it depends on and nothing else, with the same definitions, metadata "
            "and sources, plus (if asked) all aliases of these types. The minimal registry relative to another one contains the "
            "types the other cannot provide, everything they depend on, and the aliases of these which the other does not have "
            "(or all of them if asked). Neither source registry is modified nor shared. Unknown types are refused.",
  over=["inputs"],
  quant="all registries of the family of C10, all their types and aliases, all sub-registries closed by dependency",
  why="Tests check two or three small registries.",
  files=["typelib/registry.cc"],
  mech=[("minimal by type and by difference", "typelib/registry.cc")],
  harness="h_registry", note=RM_TRUST,
  bounds="the registries of C10 x every type and alias x with and without aliases; x every dependency closure as the other registry x with and without aliases")

P("C12",
  title="Removing a type removes what depends on it and nothing else",
  statement="The reverse dependencies of a type are the types that need it, directly or not, itself included. Removing a type removes "
            "exactly these and their aliases from the registry and hands them over to the caller; all other types and aliases, "
            "and names hidden by the removed ones, are available as if the removed types had never been "
            "added, and they can be added again.",
  over=["histories", "inputs"],
  quant="all registries of the family of C10, all sequences of removals, several default namespaces",
  why="One test removes one type from one registry.",
  files=["typelib/registry.cc"],
  mech=[("reverse dependency closure", "typelib/registry.cc"), ("removal from both name maps", "typelib/registry.cc")],
  harness="h_registry", note=RM_TRUST,
  bounds="the registries of C10 x 3 default namespaces x all sequences of 2 removals, then merging everything back")

P("C26",
  title="Registry iteration visits each name once, and prefix ranges are exact",
  statement="Iterating on a registry presents each type and alias exactly once, namespaces before longer names, and tells them apart. "
            "The range begin(prefix) to end(prefix) contains exactly the names starting with this prefix, and is empty if "
            "there is none. find() finds each full name and nothing else.",
  over=["inputs"],
  quant="all sets of type and alias names, all prefixes",
  why="Tests iterate on one namespace of one registry.",
  files=["typelib/registry.cc", "typelib/registryiterator.hh"],
  mech=[("name ordering and lower bounds", "typelib/registry.cc")],
  harness="h_registry", note=RM_TRUST,
  bounds="all subsets of 10 (12) names chosen around the separator character, with and without aliases, every prefix of every name; the registries of C10")

P("C13",
  title="Resizing types moves and grows exactly what contains them by value",
  statement="Registry::resize() gives each listed type (by its name or an alias) its new size, whether bigger or smaller, and updates all types that hold it by value: an "
            "array is its dimension times the size of its element, each field of a compound (of fields which do not overlap) is moved by the total growth of "
            "the fields before it, and the compound grows by the total growth of its fields. A listed compound just gets the size it is given. "
            "All else stays as it was (pointers, containers, gaps between fields, padding). The result depends neither on the order of the types nor on how often "
            "they are used, also when changes compensate each other; giving the same sizes again changes nothing. "
            "Recursive types are supported. Unknown names are refused without any effect. Values of vectors that are made "
            "afterwards hold elements of the new size in everything that is done with them.",
  over=["inputs", "histories"],
  quant="all registries, all sets of new sizes",
  why="No C++ test resizes; the update walks the type graph in name order with a memo of the types already updated.",
  files=["typelib/registry.cc", "typelib/typemodel.cc"],
  mech=[("recursive resize with a table of old and new sizes", "typelib/typemodel.cc"), ("entry point", "typelib/registry.cc")],
  harness="h_types", note=RM_TRUST,
  bounds="compounds of 9 x 8 x 7 shapes nested in each other under 3 namings, all subsets of 4 resized types x 3 sizes; all sequences of up to 4 (thorough 5) "
  "fields out of 7 with 10 combinations of growths, used by 3 levels of compounds; sequences of 3 (4) resizes; sequences of 2 (3) resizes with values of 5 kinds of vectors after each")

P("C14",
  title="Type and registry equality compare structure, and are symmetric",
  statement="isSame() tells whether two types, of one or of two registries, have the same structure: category, size, numeric kind, enum symbols, fields with the same names "
            "and offsets in the same order, dimension, element or pointed-to type, recursively and whatever the cycles; the names of "
            "types only matter for opaque and null types. It is reflexive, symmetric and transitive. canCastTo() is the same except that "
            "compounds may differ by their padding (at the end of nested ones as well) and an enum can be cast to one with more symbols; elements of "
            "arrays and containers have to be the same. Two registries are the same if and only if they have the same names, each for the same type, aliases being "
            "aliases of the same name on both sides.",
  over=["inputs"],
  quant="all pairs of types, including recursive and mutually recursive ones, all pairs of registries",
  why="test_model.cc compares about twenty pairs; the comparison of recursive types keeps track of the pairs that are being compared.",
  files=["typelib/typemodel.cc", "typelib/typemodel.hh", "typelib/registry.cc"],
  mech=[("comparison with a set of assumed pairs", "typelib/typemodel.cc"), ("registry comparison", "typelib/registry.cc")],
  harness="h_types", note=RM_TRUST,
  bounds="all pairs of ~470 types inside of and between two registries; all graphs of two compounds with two fields out of 14 (pointers, vectors, arrays, values), against "
  "each other and against a variant with other enums; all pointer graphs of three compounds; all pairs of registries of 4 names with 6 kinds of definitions")

P("C21",
  title="Enums, compounds and metadata hold what they are given",
  statement="An enum maps each symbol to the value given for it; giving another value to a known symbol is refused without effect; values are found by symbol and symbols by "
            "value, unknown ones are refused; the next value is the last one added plus one. A compound lists its fields in the order they were added "
            "(by offset, then name, once normalised) with their types, offsets and metadata, finds them by name, is as big as needed for them all, and knows the number "
            "of unused bytes at its end, nested compounds included. Metadata behaves as a map of sets under add, set, clear and merge.",
  over=["histories", "inputs"],
  quant="all sequences of additions",
  why="Tests add one or two symbols and fields.",
  files=["typelib/typemodel.cc", "typelib/typemodel.hh"],
  mech=[("Enum, Compound, MetaData", "typelib/typemodel.cc")],
  harness="h_types", note=RM_TRUST,
  bounds="all sequences of up to 4 (thorough 5) additions of 3 symbols x 5 values after 3 initial values; all sequences of 4 (5) metadata operations on two objects; "
  "all compounds of up to 4 fields of 5 types at 4 (5) offsets")

P("C17",
  title="Type names are accepted, split and shortened consistently",
  statement="A type name is a '/' separated list of components, each an identifier (letters, digits, underscores and spaces) followed by an optional list of template arguments, which are "
            "absolute type names or integers, and it ends with any number of '*' and '[<digits>]'. isValidTypename() accepts all of these (absolute names start with '/'), "
            "and refuses anything that contains other characters, has empty components, "
            "unbalanced brackets, trailing characters or separators. Registries take types and aliases with valid absolute names only. splitTypename(), getNamespace() and getTypename() give the "
            "components of a valid name, whatever the '/' in template arguments, and the last two add up to the name; a name is in exactly the namespaces "
            "that are made of its first components, and getRelativeName() gives the rest. getMinimalPathTo() gives either the absolute namespace of the type or "
            "a relative path which, looked up from the given namespace and then from its parents, leads to the namespace of the type.",
  over=["inputs"],
  quant="all strings",
  why="test_registry.cc has a dozen names and eleven minimal paths.",
  files=["typelib/typename.cc", "typelib/registry.cc"],
  mech=[("recursive descent on names", "typelib/typename.cc"), ("namespace functions", "typelib/typename.cc")],
  harness="h_names",
  note="Exhaustive within the stated bounds only; trusts the reference grammar in mc/h_names.cc. Names in a few odd forms (modifiers before a template or a separator, empty "
       "template arguments, a dimension without element) are left unspecified.",
  bounds="all strings up to length 5 to 9 (thorough 6 to 10) over six alphabets of 5 to 14 characters; all names of up to 3 components out of 14 "
  "with 8 modifier lists, and all strings one edit away from them; all pairs of a type and a namespace up to depth 4 (5) over three sets of 3 names")

P("C15",
  title="Saving a registry to TLB and loading it back gives the same registry",
  statement="Saving a registry in the TLB format and loading the result into an empty registry, through streams, strings or files, gives the same types and aliases: names, categories, "
            "sizes, numeric kinds, enum symbols with their values, fields with their types and offsets, opaques, nulls, containers with their elements and sizes, and what aliases stand for. "
            "The metadata and source IDs of types other than pointers and arrays, and the metadata of fields, are kept. Any text in metadata, source IDs, field names and enum symbols is "
            "kept, special characters of XML included. Derived types come back when something that is saved uses them; pointers and arrays lose their metadata, source ID and persistence, "
            "aliases the source ID they were given. Saving what was loaded gives the same document, and loading a document over the registry it was saved from changes nothing. "
            "Compounds that refer to themselves are refused with an ExportError. Not covered: control characters.",
  over=["inputs"],
  quant="all registries, all names, values and texts",
  why="test_lang_tlb.cc saves and loads one registry; escaping, order of definitions and dependencies through derived types and aliases have many combinations.",
  files=["lang/tlb/export.cc", "lang/tlb/import.cc", "typelib/exporter.cc", "typelib/importer.cc", "typelib/pluginmanager.cc"],
  mech=[("TLB exporter", "lang/tlb/export.cc"), ("dependency driven loading", "lang/tlb/import.cc"), ("dependency order of the export", "typelib/exporter.cc")],
  harness="h_tlb", note=RM_TRUST,
  bounds="every registry with three named types out of all pairs of templates of the registry family (compounds, vectors, aliases, derived types), 3 namings, 3 (thorough 6) decorations; every text of up to 2 (3) "
  "characters out of 12 plus 12 marked ones at 9 positions with 3 second texts; 11 names x 5 categories x 10 uses x 4 aliases; 15 sizes x 15 sizes, 10 x 10 enum values; chains of "
  "aliases and compounds in every order of the names; resized containers, through files and streams")

P("C16",
  title="The TLB importer loads or cleanly refuses any document",
  statement="A TLB document gives the types it defines whatever the order of its elements; when it defines a name twice the first definition counts. Types and aliases that the "
            "registry has before are kept unchanged, and references may be to them. A document that is not well-formed XML (a truncated one, say), has unknown elements at its top level, "
            "lacks a needed attribute, has numbers with other characters than digits, invalid names, unknown categories or container kinds, references to types that "
            "do not exist, or definitions that need themselves is refused with an exception. No document crashes the importer, leaves the registry inconsistent or "
            "leaks memory. Not specified: signs in sizes and offsets, fields that do not fit in their compound, elements defined under the names of derived types.",
  over=["inputs"],
  quant="all documents, loaded over any registry",
  why="Tests load documents that are right, and one or two that are not.",
  files=["lang/tlb/import.cc", "lang/tlb/parsing.hh", "lang/tlb/xmltools.hh"],
  mech=[("recursive loading by name", "lang/tlb/import.cc")],
  harness="h_tlb",
  note="Exhaustive within the stated bounds only; trusts the reference reader in mc/h_tlb.cc and the reference registry in mc/rmodel.cc. Runs the real importer under AddressSanitizer and counts "
       "all live allocations before and after.",
  bounds="all single edits (each attribute changed to up to 21 values, renamed; each element given another tag, removed, doubled, moved) of a document with 10 elements of all kinds, loaded over 4 registries, and a "
  "quarter of (thorough: all) the pairs of edits; all orders of three sets of 6 elements over 4 registries; at every byte: cut, removed, replaced by 17 others; all pairs of 26 pieces of "
  "content inserted at 4 places")

P("C20",
  title="The IDL export is valid IDL that means what the registry means",
  statement="Exporting a registry to IDL gives one declaration per compound (a struct with its fields in order), enum (with its symbols) and container (a typedef of a sequence, "
            "std/string being string), and a typedef for each alias that stands for something else than its own 'struct X' or 'enum X' and is not a template name or a C name with spaces. "
            "Each is in the modules of its namespace (that of the element for sequences) with the configured prefix and suffix, no module is empty, every type that is referred to is builtin or given by its "
            "absolute name and declared before, and nothing is declared twice. Names lose one leading underscore and have characters of templates replaced by underscores. Numeric types become the IDL type "
            "of the same size, sign and kind, single-dimension arrays keep their dimension. Opaques are refused unless opaque_as_any is set, which makes them any. Pointers, nulls, arrays of arrays, "
            "sequences of arrays or pointers, integers of other sizes than 1, 2, 4 and 8 and types that refer to themselves are refused with an exception when something exported needs them. With blob_threshold, bigger "
            "compounds become sequences of octets; with selected, only these types and their aliases are exported. Exporters can be used several times. Not covered: empty compounds, "
            "names that clash once converted, IDL keywords, blobs other than compounds.",
  over=["inputs"],
  quant="all registries, names and options",
  why="The only tests of the IDL exporter need a C parser that is not built; a declaration order or a module boundary is wrong for particular dependencies only.",
  files=["lang/idl/export.cc", "lang/idl/export.hh", "typelib/exporter.cc", "typelib/typevisitor.cc"],
  mech=[("IDL writer", "lang/idl/export.cc"), ("order of the export", "typelib/exporter.cc")],
  harness="h_idl", note=RM_TRUST,
  bounds="the registry family with 3 namings and 4 (thorough 12) sets of options; ~35 types in 9 uses, at 3 places, with 6 prefix/suffix pairs and 4 values of opaque_as_any; the same in 8 uses with "
  "16 alias names; all selections of up to three types, thresholds around the sizes; 4 (5) types in 4 (5) namespaces with all dependencies; all pairs of exports by one exporter. Every output is "
  "parsed by an independent parser and compared with declarations computed from the reference registry")

P("C23",
  title="Configuration sets are multimaps with typed access",
  statement="A config_set holds, for each key, the values that were set or inserted in that order: set() replaces them (an empty list removes them), insert() appends, erase() removes values and "
            "leaves children alone. get() gives the first value, or all of them for lists, converted to the type that is asked for, and the default when there is none; values that cannot be converted "
            "(integers with other characters or out of range, bools other than true, false, 1 and 0) throw bad_lexical_cast. exists(), empty(), children() and child() tell about values and children by key, in order, "
            "a missing child being an empty set. Children are released with their parent.",
  over=["histories", "inputs"],
  quant="all sequences of operations, all texts",
  why="config_set has no tests at all.",
  files=["typelib/utilmm/configset.cc", "typelib/utilmm/configset.hh"],
  mech=[("multimaps of values and children", "typelib/utilmm/configset.cc"), ("typed get", "typelib/utilmm/configset.hh")],
  harness="h_misc", note="Exhaustive within the stated bounds only; trusts the reference map and conversions in mc/h_misc.cc. Live allocations are counted.",
  bounds="all sequences of up to 4 (thorough 5) of 22 operations on three keys, everything read back after each; all texts up to 4 characters out of 9 (12) and 19 longer ones, alone, first and second")

P("C27",
  title="Registries release what they own and keep types where they are",
  statement="Whatever is done with registries (adding, aliasing, building, merging, comparing, removing, taking minimal registries, resizing, saving, loading, creating containers, reading and "
            "writing values), also when it is refused with an exception: types that a registry had stay the same objects with the same definition until they are removed or resized; registries that "
            "are derived from others do not depend on them once these are destroyed; no memory is used after it was released, and everything is released with "
            "the registries.",
  over=["histories"],
  quant="all sequences of operations on all registries",
  why="Tests neither count allocations nor check identities after other operations.",
  files=["typelib/registry.cc", "typelib/typemodel.cc", "typelib/typebuilder.cc", "lang/tlb/import.cc", "lang/csupport/containers.cc"],
  mech=[("ownership of types", "typelib/registry.cc"), ("merge of type graphs", "typelib/typemodel.cc"), ("import", "lang/tlb/import.cc")],
  harness="h_misc", note="Exhaustive within the stated bounds only; all live allocations of the process are counted, under AddressSanitizer.",
  bounds="all pairs of 20 kinds of operations (each tries valid and refused arguments) on two registries, the second out of 4 and the first out of about 120 (thorough 1500 with 3 namings)")

P("C28",
  title="Type builders and derived names give the right types",
  statement="TypeBuilder::addPointer(n) makes n levels of pointers, addArrayMajor(d) an array of d of the current type, and addArrayMinor(d) puts a new innermost dimension in the current array; types that exist "
            "already are used, others are added to the registry, with the aliases that follow from the aliases of what they are derived from. Builders start at a type or at the words of its "
            "name. parseTypename() and getBaseTypename() split a name into its base and its list of modifiers ('*', '[d]', with spaces between), build() and parse() build and find the type with this name, whether the base "
            "is given by its name or an alias, and the base only must exist: nothing (or Undefined) is returned and nothing is changed otherwise. Brackets that do not match and dimensions that are no numbers are refused with an exception.",
  over=["histories", "inputs"],
  quant="all sequences of operations, all names",
  why="test_typebuilder.cc splits four names.",
  files=["typelib/typebuilder.cc", "typelib/typebuilder.hh", "typelib/registry.cc"],
  mech=[("builder", "typelib/typebuilder.cc"), ("derived aliases", "typelib/typemodel.cc")],
  harness="h_misc", note=RM_TRUST,
  bounds="all sequences of up to 4 (thorough 5) of 8 operations from 10 types in 8 registries; all strings of up to 5 (7) characters out of 10 after a type name; all lists of up to 3 (4) modifiers with and without spaces on 10 "
  "bases in 8 registries, through three functions")

SCHED_TRUST = ("Exhaustive within the stated bounds only. The scheduler and race detector of mc/mt.cc see the accesses of typelib's code, of inlined library code, of memcpy() and the like and of the nodes of maps "
               "and lists, but not those inside libxml2, the C library and libstdc++'s streams; atomics are taken as sequentially consistent.")

P("C22",
  title="Singletons and plugins exist exactly while they are used",
  statement="A singleton, as accessed with utilmm::singleton::use<T>, exists exactly while there are use<T> objects: the first one creates it, further ones and copies share the same instance, it is destroyed with the last "
            "one and created anew afterwards. This holds whatever threads create, copy, use and destroy these objects, and when the constructor or destructor of a singleton uses other singletons (a constructor "
            "that throws leaves no client and no instance). The plugin manager is such a singleton. It loads the plugins of all directories of TYPELIB_PLUGIN_PATH, ignoring "
            "directories that do not exist, empty entries and files that are no plugins; importer() and exporter() give what was registered first under exactly this name, and throw PluginNotFound for others, as load() and save() do, which leave the registry as it "
            "is; add() refuses a second plugin of the same name and kind by returning false; new registries have the types that the type definition plugins define; all plugins are destroyed with the manager.",
  over=["histories", "schedules", "inputs"],
  quant="all histories of clients, all schedules of threads, all registrations, all search paths",
  why="No test covers singletons, registration or search paths, and none has threads.",
  files=["typelib/utilmm/singleton/server.cc", "typelib/utilmm/singleton/dummy.cc", "typelib/pluginmanager.cc", "typelib/pluginmanager.hh"],
  mech=[("reference counts behind a recursive mutex", "typelib/utilmm/singleton/server.cc"), ("plugin search and registration", "typelib/pluginmanager.cc")],
  harness="h_threads", note=SCHED_TRUST,
  technique="stateless model checking of the implementation: all schedules of real threads under a controlled scheduler with a happens-before race detector, and all histories against a reference model",
  bounds="histories: all sequences of up to 5 (thorough 6) operations (6 singletons, of which 4 use others, copies, ends of any client), also with a failing constructor; schedules: 2 threads with every pair of 9 operations, all "
  "schedules; 2 threads with 2 operations each, up to 1 (3) preemptions; 3 threads, up to 2 (3) preemptions; all sequences of up to 4 (5) registrations of 10; all search paths of up to 3 (4) of 9 entries with and without final colon")

P("C24",
  title="Threads that only share what they read do not disturb each other",
  statement="When several threads work at the same time, each with registries, types, values, layouts, configuration sets and visitors of its own, and when they share such objects that all of them only read (looking up, iterating, "
            "comparing types and values, taking minimal registries, merging from, computing layouts, dumping from, copying from, printing, visiting, saving), then each gets the results it would get "
            "alone, without data race, use of released memory or deadlock. This includes creating registries, loading and saving documents, and the loading of plugins that this triggers. Not included: "
            "Container::availableContainers(), which gives access to the list itself.",
  over=["schedules"],
  quant="all schedules of threads, all pairs of operations",
  why="No test has threads; sanitizers only see the schedules that happen.",
  files=["typelib/registry.cc", "typelib/typemodel.cc", "typelib/pluginmanager.cc", "typelib/value_ops.cc", "lang/tlb/import.cc", "lang/idl/export.cc"],
  mech=[("functions without state that is shared", "typelib/value_ops.cc"), ("list of containers, filled by the plugins", "typelib/typemodel.cc"), ("plugin manager, created by registries", "typelib/registry.cc")],
  harness="h_threads", note=SCHED_TRUST + " The writable data of the libraries is reset before each execution, so that first uses are explored every time.",
  technique="stateless model checking of the implementation: all schedules of real threads under a controlled scheduler with a happens-before race detector",
  bounds="2 threads: all pairs of 34 operations, with plugins loaded before or on demand, up to 2 (thorough 4) preemptions at locks, atomics and guards; 3 threads: all triples of 10 of them, up to 1 (2) preemptions")


RUBY_TRUST = ("Exhaustive within the stated bounds only. Ruby 3.2 is embedded in the explorer; the extension, the library and the harness run under AddressSanitizer, the interpreter itself does not. "
              "What the memory holds is read by mc/h_ruby.cc directly from the addresses that the x86-64 ABI gives, and not through typelib. The garbage collector is conservative: that something is released is judged on growth over "
              "several rounds.")
RUBY_TECHNIQUE = "stateless model checking of the implementation: exhaustive enumeration of all cases and histories of calls in an embedded interpreter against a reference model"

P("C29",
  title="Ruby values read and write exactly the memory that their type describes",
  statement="In the Ruby bindings, reading a component of a value (fields by name, symbol or method; array and container elements by index, range or iteration; strings, symbols, numbers; to_ruby, to_simple_value, "
            "the raw accessors) gives what the memory holds according to the type, for every numeric type, enum, compound, union, array, container and string, and reading changes nothing. Writing a component (with Ruby objects, "
            "hashes, arrays, other typelib values, in all the ways there are) makes it read back equal, changes no byte that does not belong to it, and neither moves nor invalidates the value. Containers behave "
            "as arrays of their elements under any sequence of push, concat, []=, insertion of their own elements, delete_if, erase, clear, chunks and iteration. Marshalling, loading, copying, comparing, converting, zeroing and swapping "
            "do on a value what the C++ library does. What a component cannot hold, components that do not exist and operations that a type does not support are refused "
            "with an exception, which changes nothing and does not terminate the interpreter. "
            "Frozen values refuse every change of themselves and of what they contain, and remain readable. Pointers give what they point to now. Accessors and paths enumerate exactly the components they describe.",
  over=["inputs", "histories"],
  quant="all types, values, components, ways to access them; all histories of operations on containers",
  why="The Ruby tests are not even run here, and check a few values of a few types.",
  files=["bindings/ruby/ext/value.cc", "bindings/ruby/ext/convert.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb",
         "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/indirect_type.rb", "bindings/ruby/lib/typelib/enum_type.rb", "bindings/ruby/lib/typelib/standard_convertions.rb"],
  mech=[("conversions", "bindings/ruby/ext/value.cc"), ("visitors", "bindings/ruby/ext/convert.cc"), ("containers", "bindings/ruby/ext/specialized_types.cc"), ("accessors", "bindings/ruby/lib/typelib/compound_type.rb")],
  harness="h_ruby", note=RUBY_TRUST, technique=RUBY_TECHNIQUE,
  bounds="24 types (all numeric types, an enum, a union, padded and nested compounds, arrays, vectors, strings, and their combinations); reading: every component of up to 12 (thorough: all) values; writing: every component, up to 9 (all) new values, 6 ways, with and "
         "without existing wrappers; refusals: every component with up to 9 unsuitable objects, names and indices; containers: all sequences of 2 (3) operations of about 20; values as a whole: 37 types, 16 operations (copy, comparison, casts, marshalling with the 4 layout options, truncated buffers of every length, ...) with every pair of values; "
         "frozen values: every change of every component in every way, after freezing the value or the component; accessors: every path of fields and elements through these types")

P("C30",
  title="Ruby objects follow the values they show, keep them alive, and release them",
  statement="An object obtained from a value (fields, elements, at any depth, dereferenced pointers, casts, what blocks are given) either shows the current content of this component or, when the component does not exist or was moved by an operation on a container (or was "
            "invalidated explicitly), refuses every use with an exception; it never shows something else, and never reads released memory. Objects (values, types, fields' metadata, enumerators, exported modules) keep alive the memory, the type and the registry that they need, "
            "whatever else is released by the garbage collector, in any order. What no object refers to is released: neither C++ values nor entries of the table of memory zones remain. When a memory zone is allocated again "
            "after it was released, new objects do not get mixed up with those of the previous owner.",
  over=["histories"],
  quant="all histories of operations and of garbage collections",
  why="Depends on the order of operations and on the garbage collector.",
  files=["bindings/ruby/ext/memory.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/compound_type.rb",
         "bindings/ruby/lib/typelib/indirect_type.rb", "bindings/ruby/lib/typelib/type.rb"],
  mech=[("table of memory zones", "bindings/ruby/ext/memory.cc"), ("invalidation of elements", "bindings/ruby/lib/typelib/container_type.rb"), ("caches of fields", "bindings/ruby/lib/typelib/compound_type.rb")],
  harness="h_ruby", note=RUBY_TRUST, technique=RUBY_TECHNIQUE,
  bounds="sequences of 2 operations out of all, and of 3 (thorough 4) out of a smaller set, on 10 types, with wrappers of every component obtained before in 5 ways; sequences of 2 operations on vectors of 4 (thorough 5) elements of which any subset was looked at, shortened to any size or by any subset; liveness: every component, 6 ways to get to it, with and without its registry; release: "
         "about 25 histories on 12 types, alone or (thorough) in all pairs; types, metadata, enumerators, exported modules that outlive their registry: every kind with every use; reallocation: 3 ways to get 3000 objects, with the garbage collector stopped in the middle of sweeping")

P("C31",
  title="Registries and types seen from Ruby are those of the C++ library",
  statement="Creating numerics, enums, compounds, opaque types, arrays, containers, pointers and aliases from Ruby, merging, loading XML, taking minimal registries, removing, resizing, setting metadata, and looking up types has exactly the effect of "
            "the corresponding C++ operations, is refused when they refuse, and every accessor (names, sizes, fields, offsets, symbols, values, dimensions, metadata, dependencies, aliases, to_h, to_xml) tells what the C++ type says. A type is always represented "
            "by the same class, that is of the kind of the type. Calls that cannot be done raise an exception that can be rescued, leave the registry as it was, and leak nothing. Types that were removed stay usable "
            "as long as they are referred to, and so do values of types that were resized.",
  over=["histories", "inputs"],
  quant="all histories of operations, all arguments",
  why="The Ruby tests check single operations, and are not run here.",
  files=["bindings/ruby/ext/registry.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/metadata.cc", "bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/lib/typelib/type.rb",
         "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/enum_type.rb", "bindings/ruby/lib/typelib/cxx_registry.rb", "typelib/typebuilder.cc"],
  mech=[("wrapping of types", "bindings/ruby/ext/value.cc"), ("operations", "bindings/ruby/ext/registry.cc"), ("builders", "bindings/ruby/lib/typelib/compound_type.rb")],
  harness="h_ruby", note=RUBY_TRUST, technique=RUBY_TECHNIQUE,
  bounds="all sequences of 2 (thorough 3) of about 60 operations on an empty registry and one with 12 types, with types and values kept from before; 3 copies of each result; about 150 calls that must be refused and 50 that may be, on 3 registries; all compounds of up to 3 (4) fields out of 5 types and enums of up to 4 (5) symbols, with given and automatic offsets and values, in all ways to give them")

P("C32",
  title="Names, metadata and exported modules in Ruby agree with the registry",
  statement="In the Ruby bindings, names of types are split into namespace and basename at the slashes that are not within template arguments, and are put together again with any separator, without changing the name that was given; "
            "CXX.parse_template gives the name of the template and its arguments. Metadata behaves as a map from texts (of any content) to sets of texts, on its own, on types and on fields; it follows copies of the registry, and what is not a text is refused without effect. "
            "A registry exported to a module gives access to every type (and alias), under its own name or in CamelCase, below the modules of its namespaces (templates by their arguments), always as the same type, filtered by the given block; "
            "what does not exist is refused; exporting another registry replaces the first one.",
  over=["inputs", "histories"],
  quant="all names, all histories of metadata, all paths to types",
  why="The Ruby tests check few names and a single exported registry, and are not run here.",
  files=["bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/lib/typelib/registry_export.rb", "bindings/ruby/lib/typelib/metadata.rb", "bindings/ruby/ext/metadata.cc", "bindings/ruby/ext/registry.cc", "bindings/ruby/lib/typelib/cxx.rb"],
  mech=[("splitting of names", "bindings/ruby/ext/registry.cc"), ("metadata", "bindings/ruby/ext/metadata.cc"), ("exported modules", "bindings/ruby/lib/typelib/registry_export.rb")],
  harness="h_ruby", note=RUBY_TRUST, technique=RUBY_TECHNIQUE,
  bounds="names of up to 3 components (12 to about 300 each, with nested templates), 4 suffixes, 4 separators; templates of up to 3 arguments, nested twice (thorough: 3 times); all sequences of up to 2 or 3 (3 or 4) of 9 operations on metadata with up to 4 keys and 5 texts; "
         "all sequences of 2 (3) of 42 paths in an exported registry with 17 types, in 5 ways to export it")

P("C33",
  title="Converted values stand for the Ruby objects that were read or assigned",
  statement="In the Ruby bindings, where a conversion is registered for the type of a field (strings, booleans, arrays and containers of converted elements, types with conversions of their own), reading the field through its accessor gives the same Ruby object again "
            "until the value is loaded anew, and what is marshalled, compared, copied, assigned, duplicated, converted to simple values or printed is the current state of this object, whether it was assigned or changed in place. Loading (from_buffer, copy, zero!) "
            "makes it forget these objects: later reads give what was loaded, and changes of the old objects have no effect. Copies are independent. Specializations and conversions apply exactly to the types that their name, pattern, "
            "element or container and condition designate, wherever these types are used.",
  over=["histories", "inputs"],
  quant="all histories of reading, changing, assigning, loading and copying; all registrations",
  why="The Ruby tests check a few single steps, and are not run here.",
  files=["bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/specializations.rb", "bindings/ruby/lib/typelib/standard_convertions.rb", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/container_type.rb",
         "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib.rb"],
  mech=[("caches of converted fields", "bindings/ruby/lib/typelib/compound_type.rb"), ("registered conversions", "bindings/ruby/lib/typelib/specializations.rb")],
  harness="h_ruby", note=RUBY_TRUST + " Fields are accessed through their accessors; mixing these with get(), set() and raw values of the same field is left unspecified.", technique=RUBY_TECHNIQUE,
  bounds="all sequences of up to 3 (thorough 4) operations (reading, changing or assigning one of 9 converted fields, loading in 3 ways, flushing, duplicating, changing objects that are no longer used), then 8 ways to observe the result; "
         "all pairs (triples) of 4 kinds of registrations with 9 keys and 3 conditions, on 6 types")

P("C34",
  title="Types loaded from C++ declarations describe these declarations",
  statement="From what castxml reports of C++ headers, the loader of the Ruby bindings makes the types that the required headers declare and that Typelib can represent, and those they depend on, and no others: structures and classes with all their fields, inherited ones included, "
            "at their offsets and with their sizes; enumerations with their values; arrays, pointers, vectors and strings; typedefs as aliases of the type they stand for; templates under the name their arguments give. Each has its C++ name, source file, line, documentation, "
            "@meta tags and base classes as metadata. What cannot be represented (private, virtual, incomplete, empty, anonymous, recursive, of bit-fields, of unsupported types, or that uses such a type) is left out, and prevents nothing else from being loaded; "
            "the result does not depend on the order of the declarations. Types that are declared opaque stay so, under all their names. Loading several files at once, in whatever order they are done, gives the types of all of them; if one cannot be loaded the load fails, "
            "and changes nothing.",
  over=["inputs", "schedules"],
  quant="all sets of declarations, all orders of completion of the importers",
  why="castxml is needed by the tests of the importer, which compare a few headers; a declaration that is valid C++ can make the whole import fail, or describe memory that is laid out differently.",
  files=["bindings/ruby/lib/typelib/gccxml.rb", "bindings/ruby/lib/typelib/cxx.rb"],
  mech=[("types from declarations", "bindings/ruby/lib/typelib/gccxml.rb"), ("names of templates", "bindings/ruby/lib/typelib/cxx.rb")],
  harness="h_ruby", note=RUBY_TRUST + " castxml is not installed: its output is produced by the harness, in the format of test/ruby/cxx_import_tests/namespaces.xml, with the layout that the C++ ABI gives.", technique=RUBY_TECHNIQUE,
  bounds="all pairs of 52 kinds of fields; all combinations of 16 kinds of bases, 13 traits, 8 uses and 2 files of a structure; all templates of 1 or 2 of 19 (second: 9; thorough 19) kinds of arguments in 5 uses; "
         "all chains of up to 2 typedefs of 12 kinds of targets in 4 namespaces and 2 files, in 6 uses; all of 21 kinds of opaques in 3 namespaces, 10 uses and 3 second uses, or with another type of this name; all pairs of 4 kinds of declarations with the same name in 5 namespaces, in 9 uses; each with the declarations in both orders; all of 8 styles and 8 texts of comments, "
         "their position and what surrounds them; all type names of up to 3 components with nested template arguments, in 4 spellings; up to 3 files loaded with 1 to 4 threads and up to 1 (thorough 3) failures, in every order of completion; "
         "all options of the importers, which are replaced by scripts that record them")

P("C36",
  title="Listings and displays of types show all that was selected, as it is",
  statement="Registry::dump lists each persistent name (of a type or alias) of the registry whose source is the one asked for ('*' for any, nothing for those without source), once, in the order of the registry, "
            "and no other; with its source if asked (WithSourceId). With AllType, a type is described: category and size of numerics, symbols and values of enums, size of compounds with offset, type and name of every field in order (nested compounds "
            "and arrays in full), dimension of arrays, kind and element of containers, name of opaques and of what pointers point to; and an alias is given with the type it stands for. Without it, the name of the type is given. "
            "TypeDisplayVisitor describes single types the same way. Showing types, recursive ones included, ends and changes nothing. How it is set out (spaces, line ends) is left open.",
  over=["inputs"],
  quant="all registries in the bounded family, all modes and filters",
  why="No test displays or lists types.",
  files=["typelib/registry.cc", "typelib/typedisplay.cc", "typelib/typedisplay.hh", "typelib/typevisitor.cc"],
  mech=[("listing", "typelib/registry.cc:dump"), ("display of types", "typelib/typedisplay.cc"), ("dispatch", "typelib/typevisitor.cc")],
  harness="h_tlb", note=RM_TRUST,
  bounds="The registries of C15 (three namings, each decorated with sources and metadata in one way, thorough 6); 12 definitions under 5 names in up to 2 (thorough 3) levels of pointers, arrays, vectors and compounds, with aliases; 5 (thorough 8) modes and every source there is, '*', '' and one there is not")

P("C35",
  title="Files are imported and exported from Ruby as the C++ plugins do",
  statement="Registry#import and Registry.import of the Ruby bindings read a file with the importer that is given, or else with the one that its extension designates, and refuse unknown ones; relative names are relative to the current directory. The registry then has the types "
            "and aliases of the file besides its own. A file that cannot be read, is malformed or makes the importer fail raises an exception, and adds nothing; types that the registry defines otherwise are refused, and so are all that it defines if merge is false; existing types stay as they are. "
            "Registry#export gives the bytes that the exporter writes, does not modify the registry, and raises an exception if the exporter fails; what is exported to XML is imported again as the same types. Options (texts, numbers, booleans, lists, sets of options at any depth) "
            "reach importers and exporters as they are given. A CXXRegistry has the standard C++ types. Ruby plugins are loaded once, from all directories of TYPELIB_RUBY_PLUGIN_PATH.",
  over=["inputs", "configurations"],
  quant="all files, options and registries",
  why="The Ruby tests import few files with no options, and are not run here.",
  files=["bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/ext/registry.cc", "bindings/ruby/lib/typelib/cxx_registry.rb", "bindings/ruby/lib/typelib.rb", "typelib/pluginmanager.cc", "typelib/importer.cc", "typelib/exporter.cc"],
  mech=[("files from Ruby", "bindings/ruby/ext/registry.cc"), ("options", "bindings/ruby/lib/typelib/registry.rb")],
  harness="h_ruby", note=RUBY_TRUST + " What is read and written by the importers and exporters themselves is checked by C15, C16 and C20; here an importer and an exporter of the harness record what they are called with.", technique=RUBY_TECHNIQUE,
  bounds="all sets of up to 2 (thorough 3) options of 23 values, in 3 ways; all of 22 contents with up to 5 extensions, 5 kinds, 3 merge flags, 3 registries and 4 ways; all sequences of up to 3 (thorough 4) of 7 kinds of types exported in 12 ways from 2 classes of registries; "
         "all lists of up to 3 of 6 kinds of plugin directories")
