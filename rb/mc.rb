# Loaded by mc/h_ruby.cc in the embedded interpreter
module Gem; def self.find_files(*) [] end end
$VERBOSE = nil
require 'typelib'
Typelib.warn_about_helper_method_clashes = false

module Bodies
end

# What the types of the harness look like in memory (x86-64, libstdc++). `read'
# decodes raw memory and is what the bindings are judged against.
module Model
  class T
    attr_reader :name, :size, :align
    def initialize(name, size, align) @name, @size, @align = name, size, align end
    def fixed?; true end
    def same?(a, b) a == b end
    def inspect; name end
    def q(s) s.gsub('<', '&lt;').gsub('>', '&gt;') end
  end

  class Num < T
    attr_reader :code, :kind
    KINDS = { 'c' => :sint, 'C' => :uint, 's' => :sint, 'S' => :uint, 'l' => :sint, 'L' => :uint, 'q' => :sint, 'Q' => :uint, 'e' => :float, 'E' => :float }
    def initialize(name, code) @code = code; s = [0].pack(code).size; super(name, s, s); @kind = KINDS[code] end
    def read(a) MC.peek(a, size).unpack1(code) end
    def pack(v) [v].pack(code) end
    def values
      case kind
      when :sint then [1, 0, -1, (1 << (size * 8 - 1)) - 1, -(1 << (size * 8 - 1)), 0x55 ]
      when :uint then [1, 0, (1 << (size * 8)) - 1, 1 << (size * 8 - 1), (1 << (size * 8 - 1)) - 1, 0x55]
      else [1.0, 0.0, -0.0, 0.5, -1.5, 1.0 / 0, -1.0 / 0, 0.0 / 0, size == 4 ? 3.4028234663852886e+38 : 1.7976931348623157e+308]
      end
    end
    def same?(a, b) kind == :float ? (a.is_a?(Float) && [a].pack('E') == [b].pack('E') || (a.is_a?(Float) && a.nan? && b.nan?)) : (a.is_a?(Integer) && a == b) end
    def xml; %{<numeric name="#{q name}" category="#{kind}" size="#{size}"/>} end
    def to_ruby(v) v end
  end

  class Enum < T
    attr_reader :map
    def initialize(name, map) super(name, 4, 4); @map = map end
    def read(a) i = MC.peek(a, 4).unpack1('l'); map.key(i) || i end
    def pack(v) [v.is_a?(Integer) ? v : map.fetch(v)].pack('l') end
    def values; map.keys end
    def xml; %{<enum name="#{q name}" size="4">#{map.map { |k, v| %{<value symbol="#{k}" value="#{v}"/>} }.join}</enum>} end
    def to_ruby(v) v.is_a?(Integer) ? nil : v end
  end

  class Compound < T
    attr_reader :fields     # [name, offset, type]
    def initialize(name, fields, size) super(name, size, fields.map { |f| f[2].align }.max); @fields = fields end
    def fixed?; fields.all? { |f| f[2].fixed? } end
    def read(a) fields.map { |n, o, t| [n, t.read(a + o)] }.to_h end
    def pack(v) fields.map { |n, _, t| t.pack(v[n]) }.join end
    def same?(a, b) a.is_a?(Hash) && a.keys == fields.map(&:first) && fields.all? { |n, _, t| t.same?(a[n], b[n]) } end
    # a base value, and those that differ from it in one field
    def values
      base = fields.map { |n, _, t| [n, t.values.first] }.to_h
      [base] + fields.flat_map { |n, _, t| t.values.drop(1).map { |v| base.merge(n => v) } }
    end
    def xml; %{<compound name="#{q name}" size="#{size}">#{fields.map { |n, o, t| %{<field name="#{n}" type="#{q t.name}" offset="#{o}"/>} }.join}</compound>} end
    def to_ruby(v) fields.map { |n, _, t| [n, t.to_ruby(v[n])] }.to_h end
    def field(n) fields.find { |f| f[0] == n } end
  end

  # fields that share their memory: identified by the bytes
  class Union < Compound
    def of(bytes) { 'i' => bytes.unpack1('L'), 'f' => bytes.unpack1('e'), 'b' => bytes.unpack('C4') } end
    def with(n, w) of(field(n)[2].pack(w)) end
    def pack(v) [v['i']].pack('L') end
    def same?(a, b) a.keys == b.keys && a['i'] == b['i'] && a['b'] == b['b'] end
    def values; [1, 0, 0xffffffff, 0x3fc00000].map { |i| of([i].pack('L')) } end
  end

  class Arr < T
    attr_reader :element, :length
    def initialize(element, length) super("#{element.name}[#{length}]", element.size * length, element.align); @element, @length = element, length end
    def fixed?; element.fixed? end
    def read(a) Array.new(length) { |i| element.read(a + i * element.size) } end
    def pack(v) v.map { |e| element.pack(e) }.join end
    def same?(a, b) a.is_a?(Array) && a.size == b.size && a.zip(b).all? { |x, y| element.same?(x, y) } end
    def values
      ev = element.values
      base = Array.new(length) { |i| ev[i % ev.size] }
      [base] + ev.drop(1).flat_map { |v| (0...length).map { |i| b = base.dup; b[i] = v; b } }.uniq.reject { |v| v == base }
    end
    def xml; %{<array name="#{q name}" of="#{q element.name}" dimension="#{length}"/>} end
    def to_ruby(v) v.map { |e| element.to_ruby(e) } end
  end

  class CharArr < Arr
    # as a string of at most length - 1 characters
  end

  class Vec < T
    attr_reader :element
    def initialize(element) super("/std/vector<#{element.name}>", 24, 8); @element = element end
    def fixed?; false end
    def read(a)
      b, e = MC.peek(a, 16).unpack('QQ')
      raise "bad vector #{b} #{e}" if (e - b) % element.size != 0 || e - b > 1 << 20
      Array.new((e - b) / element.size) { |i| element.read(b + i * element.size) }
    end
    def pack(v) [v.size].pack('Q') + v.map { |e| element.pack(e) }.join end
    def same?(a, b) a.is_a?(Array) && a.size == b.size && a.zip(b).all? { |x, y| element.same?(x, y) } end
    def values; ev = element.values; [[ev[0], ev[1 % ev.size]], [], [ev[-1]], [ev[0], ev[-1], ev[1 % ev.size]]] end
    def xml; %{<container name="#{q name}" of="#{q element.name}" size="24" kind="/std/vector"/>} end
    def to_ruby(v) v.map { |e| element.to_ruby(e) } end
  end

  class Str < T
    def initialize; super('/std/string', 32, 8) end
    def fixed?; false end
    def read(a) p, n = MC.peek(a, 16).unpack('QQ'); raise "bad string #{n}" if n > 1 << 20; MC.peek(p, n) end
    def pack(v) [v.bytesize].pack('Q') + v.b end
    def same?(a, b) a.is_a?(String) && a.b == b.b end
    def values; ['ab', '', "x\0y", "\u00e9t\u00e9", 'a' * 40, "\xff\x80".b] end
    def xml; %{<container name="/std/string" of="/char" size="32" kind="/std/string"/>} end
    def to_ruby(v) v end
  end

  def self.num(name, code) Num.new(name, code) end
  I8 = num('/int8_t', 'c'); U8 = num('/uint8_t', 'C'); I16 = num('/int16_t', 's'); U16 = num('/uint16_t', 'S')
  I32 = num('/int32_t', 'l'); U32 = num('/uint32_t', 'L'); I64 = num('/int64_t', 'q'); U64 = num('/uint64_t', 'Q')
  F32 = num('/float', 'e'); F64 = num('/double', 'E')
  NUMS = [I8, U8, I16, U16, I32, U32, I64, U64, F32, F64]
  STR = Str.new
  COLOR = Enum.new('/Color', { RED: 0, GREEN: 5, BLUE: -2 })
  # a structure laid out the way a C++ compiler does
  def self.struct(name, *fields)
    offset = 0
    fields = fields.map do |n, t|
      offset = (offset + t.align - 1) / t.align * t.align
      f = [n, offset, t]; offset += t.size; f
    end
    align = fields.map { |f| f[2].align }.max
    Compound.new(name, fields, (offset + align - 1) / align * align)
  end
  PAD = struct('/Pad', ['a', I8], ['b', I32], ['c', U8])
  NEST = struct('/ns/Nest', ['x', I16], ['pad', PAD], ['arr', Arr.new(I16, 3)], ['e', COLOR])
  DYN = struct('/Dyn', ['k', I8], ['v', Vec.new(I32)], ['s', STR], ['t', U64])
  DEEP = struct('/Deep', ['a', Arr.new(PAD, 2)], ['d', DYN], ['vv', Vec.new(PAD)], ['z', F64])
  UNION = Union.new('/Union', [['i', 0, U32], ['f', 0, F32], ['b', 0, Arr.new(U8, 4)]], 4)

  def self.dependencies(t, out = [])
    return out if out.include?(t)
    case t
    when Compound then t.fields.each { |f| dependencies(f[2], out) }
    when Arr, Vec then dependencies(t.element, out)
    end
    out << t unless out.any? { |o| o.name == t.name }
    out
  end

  # A registry with these types, from their definition as a type library
  def self.registry(*types)
    reg = Typelib::Registry.new
    Typelib::Registry.add_standard_cxx_types(reg)
    types.each { |t| add(reg, t) }
    reg
  end
  def self.add(reg, t)
    dependencies(t).each do |d|
      next if reg.include?(d.name)
      case d
      when Arr then reg.create_array(reg.get(d.element.name), d.length)
      when Vec then reg.create_container('/std/vector', reg.get(d.element.name))
      when Str, Num then reg.get(d.name)
      else reg.merge_xml(%{<?xml version="1.0"?><typelib>#{dependencies(d).map(&:xml).join}</typelib>})
      end
    end
    reg.get(t.name)
  end
end

module MC
  def self.check(cond, key, msg = nil) fail(key, msg ? msg : yield) unless cond end
  # runs the block, which has to raise one of these exceptions
  def self.refused(key, what, *classes)
    classes = [ArgumentError, TypeError, RangeError, IndexError, RuntimeError] if classes.empty?
    begin
      r = yield
    rescue *classes => e
      count(:refused)
      return e
    end
    fail(key, "#{what} should have been refused, returned #{r.class}")
  end
  def self.pick(list, what) list[choose(list.size, what)] end
end
require 'values'
require 'containers'
require 'lifetime'
require 'registries'
require 'refusals'
require 'owners'
require 'describe'
require 'whole'
require 'conversions'
require 'cxx'
require 'files'
