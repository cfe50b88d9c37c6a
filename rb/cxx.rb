# C++ declarations, the way castxml describes them, and what Typelib makes of them
require 'typelib/cxx'
require 'set'
module Cxx
  Typelib.logger.level = 5 if Typelib.respond_to?(:logger) && Typelib.logger
  class D
    attr_accessor :name, :context, :file, :line, :access
    attr_writer :lines
    def parts; (context ? context.parts : []) + [typelib_part] end
    def cxxparts; (context ? context.cxxparts : ['']) + [name] end
    def typelib_part; name end
    def full; '/' + parts.join('/') end
    def cxxname; cxxparts.join('::') end
    def dsize; size end
    def pod?; true end
  end
  class Ns < D
    def initialize(name, context = nil) @name, @context = name, context end
  end
  class Fund < D
    attr_reader :typelib, :size
    def initialize(name, typelib, size) @name, @typelib, @size = name, typelib, size end
    def align; size end
    def rep; typelib end
    def targ; name end
    def context; nil end
    def refs; [] end
  end
  class Ptr < D
    attr_reader :type
    def name; nil end
    def targ; Ptr === type ? "#{type.targ}*" : "#{type.targ} *" end
    def initialize(t) @type = t end
    def size; 8 end
    def align; 8 end
    def rep; (r = type.rep) && "#{r}*" end
    def refs; [type] end
  end
  class Arr < D
    attr_reader :type, :length
    def initialize(t, n) @type, @length = t, n end
    def targ; "#{type.targ} [#{length}]" end
    def size; type.size * length end
    def align; type.align end
    def rep; (r = type.rep) && "#{r}[#{length}]" end
    def refs; [type] end
  end
  class Cv < D
    attr_reader :type, :flags
    def initialize(t, flags = %w{const}) @type, @flags = t, flags end
    def size; type.size end
    def align; type.align end
    def rep; type.rep end
    def refs; [type] end
  end
  class Typedef < D
    attr_reader :type
    def initialize(name, context, t, access: nil) @name, @context, @type, @access = name, context, t, access end
    def size; type.size end
    def align; type.align end
    def rep; [nil, 'public'].include?(access) ? type.rep : nil end
    def targ; type.targ end
    def pod?; type.pod? end
    def refs; [type] end
  end
  # references, functions: not represented
  class Other < D
    attr_reader :tag, :size
    def initialize(tag, size = 8, attributes = '') @tag, @size, @attributes = tag, size, attributes end
    def align; 8 end
    def rep; nil end
    def refs; [] end
    attr_reader :attributes
  end
  class Enum < D
    attr_reader :values, :size
    def initialize(name, context, values, access: nil, size: 4) @name, @context, @values, @access, @size = name, context, values, access, size end
    def align; size end
    def rep; name && visible? && size == 4 && values.values.all? { |v| (-2**31...2**31).cover?(v) } ? full : nil end
    def visible?; [nil, 'public'].include?(access) end
    def targ; cxxparts.drop(1).join('::') end
    def refs; [] end
  end
  # a template argument, as written in C++ and in Typelib (nil if it cannot be)
  Arg = Struct.new(:targ, :rep)
  Field = Struct.new(:name, :type, :access, :offset, :line, :bits)
  Base = Struct.new(:type, :access, :virtual, :offset)
  class Rec < D
    attr_reader :kind, :fields, :bases, :size, :align, :virtuals, :args
    attr_accessor :incomplete, :statics
    def initialize(name, context, fields = [], kind: 'Struct', access: nil, bases: [], virtuals: [], incomplete: false, args: nil)
      @name, @context, @kind, @access, @virtuals, @incomplete, @args = name, context, kind, access, virtuals, incomplete, args
      @fields = fields.map { |n, t, a| Field.new(n, t, a || 'public') }
      @bases = bases.map { |t, a, v| Base.new(t, a || 'public', v || false) }
      layout unless incomplete
    end
    def visible?; [nil, 'public'].include?(access) end
    def name; args ? "#{@name}<#{args.map { |a| a.respond_to?(:targ) ? a.targ : a }.join(', ')}#{args.last.respond_to?(:targ) && args.last.targ.end_with?('>') ? ' ' : ''}>" : @name end
    def targ; cxxparts.drop(1).join('::') end
    def typelib_part
      return @name unless args
      "#{@name}<#{args.map { |a| Rec === a ? a.full : a.respond_to?(:rep) ? a.rep : a }.join(',')}>"
    end
    def empty?; fields.empty? && bases.all? { |b| b.type.empty? } && virtuals.empty? end
    def pod?; bases.empty? && virtuals.empty? && fields.all? { |f| f.access == 'public' && f.type.pod? } end
    def dsize; pod? ? size : @dsize end
    def layout
      o, a = 0, 1
      if !virtuals.empty? && bases.none? { |b| b.type.has_vtable? } then o = a = 8 end
      bases.each do |b|
        if b.type.empty? then b.offset = 0
        else
          b.offset = (o + b.type.align - 1) / b.type.align * b.type.align
          o = b.offset + b.type.dsize; a = [a, b.type.align].max
        end
      end
      fields.each do |f|
        f.offset = (o + f.type.align - 1) / f.type.align * f.type.align
        o = f.offset + f.type.size; a = [a, f.type.align].max
      end
      @dsize, @align = o, a
      @size = [(o + a - 1) / a * a, 1].max
    end
    def has_vtable?; !virtuals.empty? || bases.any? { |b| b.type.has_vtable? } end
    def all_fields
      bases.flat_map { |b| b.type.all_fields.map { |n, t, o| [n, t, o + b.offset] } } + fields.map { |f| [f.name, f.type, f.offset] }
    end
    def rep
      return @rep if defined?(@rep)
      @rep = nil          # recursive types have no representation
      @rep = decide ? full : nil
    end
    def decide
      name && (args || []).all? { |a| !a.respond_to?(:rep) || a.rep } && visible? && !incomplete && virtuals.empty? && !empty? &&
        bases.all? { |b| b.type.empty? || b.access == 'public' && !b.virtual && b.type.rep } &&
        fields.all? { |f| f.access == 'public' && f.type.rep && !f.bits }
    end
    def refs; bases.map(&:type) + fields.map(&:type) + (args || []).grep(D) end
  end
  class Vec < D
    attr_reader :type
    def initialize(t) @type = t; @context = STD; end
    def size; 24 end
    def align; 8 end
    def pod?; false end
    def targ; "std::#{name}" end
    def name; e = type.targ; s = e.end_with?('>') ? ' ' : ''; "vector<#{e}, std::allocator<#{e}#{s}> >" end
    def rep; (r = type.rep) && "/std/vector<#{r}>" end
    def refs; [type] end
  end
  class Str < D
    def initialize; @context = CXX11 end
    def size; 32 end
    def align; 8 end
    def pod?; false end
    def targ; 'std::basic_string<char>' end
    def name; 'basic_string<char>' end
    def rep; '/std/string' end
    def refs; [] end
  end
  STD = Ns.new('std'); CXX11 = Ns.new('__cxx11', STD)
  F = { int: ['int', '/int32_t', 4], uint: ['unsigned int', '/uint32_t', 4], char: ['char', '/int8_t', 1], uchar: ['unsigned char', '/uint8_t', 1], short: ['short int', '/int16_t', 2], ushort: ['short unsigned int', '/uint16_t', 2],
        long: ['long int', '/int64_t', 8], ulong: ['long unsigned int', '/uint64_t', 8], bool: ['bool', '/bool', 1], float: ['float', '/float', 4], double: ['double', '/double', 8], schar: ['signed char', '/int8_t', 1], longlong: ['long long int', '/int64_t', 8], ulonglong: ['long long unsigned int', '/uint64_t', 8] }.transform_values { |a| Fund.new(*a) }
  VOID = Fund.new('void', '/nil', 0)
  BAD = { ldouble: Fund.new('long double', nil, 16), int128: Fund.new('__int128', nil, 16), char16: Fund.new('char16_t', nil, 2) }

  class Program
    attr_reader :files, :decls
    def initialize; @files = []; @decls = [] end   # files: [path, required]
    def file(path, required = true) @files << [path, required]; @files.size end
    # declares in a file, at a line
    def add(d, file, line) d.file, d.line = file, line; @decls << d; d end
    def esc(s) s.gsub('&', '&amp;').gsub('<', '&lt;').gsub('>', '&gt;').gsub('"', '&quot;') end
    def xml(reverse: false)
      @ids = {}.compare_by_identity; @queue = []; out = []
      root = ref(:root)
      @decls.each { |d| ref(d) }
      until @queue.empty?
        out << node(@queue.shift)
      end
      out.reverse! if reverse
      fs = files.each_with_index.map { |(p, _), i| %{  <File id="f#{i + 1}" name="#{esc p}"/>} } + [%{  <File id="f99" name="/nonexistent/std/header"/>}, %{  <File id="f0" name="&lt;builtin&gt;"/>}]
      "<?xml version=\"1.0\"?>\n<GCC_XML version=\"0.9.0\" cvs_revision=\"1.139\">\n#{(reverse ? fs + out.flatten(1) : out.flatten(1) + fs).join("\n")}\n</GCC_XML>\n"
    end
    def ref(d)
      key = Cv === d ? d : d
      @ids[key] ||= begin
        @queue << d
        "_#{@ids.size + 1}"
      end
    end
    def where(d) d.file ? %{ location="f#{d.file}:#{d.line}" file="f#{d.file}" line="#{d.line}"} : %{ location="f0:0" file="f0" line="0"} end
    def ctx(d) %{ context="#{ref(d.context || :root)}"} end
    def acc(d) d.access ? %{ access="#{d.access}"} : '' end
    def node(d)
      id = @ids[d]
      case d
      when :root then [%{  <Namespace id="#{id}" name="::"/>}]
      when Ns then [%{  <Namespace id="#{id}"#{d.name ? %{ name="#{d.name}"} : ''}#{ctx(d)}/>}]
      when Fund then [%{  <FundamentalType id="#{id}" name="#{d.name}" size="#{d.size * 8}" align="#{d.align * 8}"/>}]
      when Ptr then [%{  <PointerType id="#{id}" type="#{ref(d.type)}" size="64" align="64"/>}]
      when Arr then [%{  <ArrayType id="#{id}" min="0" max="#{d.length - 1}" type="#{ref(d.type)}"/>}]
      when Cv then [%{  <CvQualifiedType id="#{id}" type="#{ref(d.type)}" #{d.flags.map { |f| %{#{f}="1"} }.join(' ')}/>}]
      when Typedef then [%{  <Typedef id="#{id}" name="#{d.name}" type="#{ref(d.type)}"#{ctx(d)}#{acc(d)}#{where(d)}/>}]
      when Other then [%{  <#{d.tag} id="#{id}" size="#{d.size * 8}" align="64"#{d.attributes}/>}]
      when Enum
        [%{  <Enumeration id="#{id}"#{d.name ? %{ name="#{d.name}"} : ''}#{ctx(d)}#{acc(d)}#{where(d)} size="#{d.size * 8}" align="#{d.align * 8}">}] + d.values.map { |n, v| %{    <EnumValue name="#{n}" init="#{v}"/>} } + ['  </Enumeration>']
      when Vec, Str
        ref(d.type) if Vec === d
        [%{  <Class id="#{id}" name="#{esc d.name}"#{ctx(d)} location="f99:1" file="f99" line="1" members="#{id}m" size="#{d.size * 8}" align="64"/>}, %{  <Field id="#{id}m" name="_M_impl" type="_0" context="#{id}" access="private" offset="0"/>}]
      when Rec
        ms = []; members = []
        d.fields.each_with_index do |f, i|
          m = "#{id}f#{i}"; members << m
          ms << %{  <Field id="#{m}" name="#{f.name}" type="#{ref(f.type)}"#{f.bits ? %{ bits="#{f.bits}"} : ''} context="#{id}" access="#{f.access}" location="f#{d.file}:#{f.line || d.line}" file="f#{d.file}" line="#{f.line || d.line}" offset="#{f.offset * 8}"/>}
        end
        (d.args || []).grep(D).each { |a| ref(a) }
        d.virtuals.each_with_index do |t, i|
          m = "#{id}v#{i}"; members << m
          ms << %{  <#{t} id="#{m}" name="v#{i}" returns="_0" context="#{id}" access="public" virtual="1" overrides=""/>}
        end
        unless d.incomplete
          %w{Constructor OperatorMethod Destructor}.each { |t| members << "#{id}#{t[0]}"; ms << %{  <#{t} id="#{id}#{t[0]}" name="x" context="#{id}" access="public" location="f1:1" file="f1" line="1" artificial="1"/>} }
        end
        head = %{  <#{d.kind} id="#{id}"#{d.name ? %{ name="#{esc d.name}"} : ''}#{ctx(d)}#{acc(d)}#{where(d)}}
        if d.incomplete then [head + ' incomplete="1"/>']
        else
          head += %{ members="#{members.join(' ')}" size="#{d.size * 8}" align="#{d.align * 8}"}
          if d.bases.empty? then [head + '/>'] + ms
          else
            [head + %{ bases="#{d.bases.map { |b| (b.access == 'public' ? '' : "#{b.access}:") + ref(b.type) }.join(' ')}">}] +
              d.bases.map { |b| %{    <Base type="#{ref(b.type)}" access="#{b.access}" virtual="#{b.virtual ? 1 : 0}" offset="#{b.offset}"/>} } + ["  </#{d.kind}>"] + ms
          end
        end
      end
    end
    def load(opaques: [], reverse: false)
      c = Typelib::GCCXMLLoader.new
      c.opaques = opaques.to_set
      c.load(files.select { |_, r| r }.map(&:first), xml(reverse: reverse))
    end
  end

  # What the declarations say, against what the registry says
  class Oracle
    attr_reader :need, :known, :typedefs
    def initialize(program, opaques = [])
      @program, @opaques = program, opaques
      # everything the program mentions
      @all = [].tap { |l| program.decls.each { |d| reach(d, l) } }
      @known = {}             # representable: typelib name => declaration
      @all.each { |d| (r = d.rep) && !@opaques.include?(r) && !(Typedef === d || Cv === d) && @known[r] ||= d }
      @typedefs = @all.select { |d| Typedef === d && d.rep }
      @need = {}
      program.decls.each { |d| close(d) if d.file && program.files[d.file - 1][1] && (Rec === d || Enum === d) }
    end
    def reach(d, l)
      return if l.any? { |x| x.equal?(d) }
      l << d
      d.refs.each { |r| reach(r, l) }
      reach(d.context, l) if Rec === d.context
    end
    def close(d)
      d = d.type while Typedef === d || Cv === d
      return unless (r = d.rep)
      return if @need.has_key?(r)
      @need[r] = d
      return if @opaques.include?(r)
      case d
      when Rec then d.all_fields.each { |_, t, _| close(t) }
      when Ptr, Arr, Vec then close(d.type)
      end
    end
    def problems(registry)
      types, aliases = Cxx.dump(registry)
      out = []
      @opaques.each do |n|
        if !types[n] then out << ['opaque', "#{n} is missing"]
        elsif !types[n].opaque? then out << ['opaque', "#{n} is not opaque"] end
        types.delete(n)
      end
      (need.keys - types.keys - @opaques).each { |n| out << ['missing', "#{n} is missing"] }
      used = {}
      types.each do |n, t|
        if !(d = known[n]) && n != '/char' && !(n == '/int8_t' && types.has_key?('/std/string')) then out << ['unexpected', "#{n} is not declared, or cannot be represented"]; next end
        Cxx.children(t).each { |c| used[c] = true }
        out.concat(compare(n, t, d)) if d
      end
      types.each_key { |n| out << ['unused', "#{n} is there, and nothing uses it"] if (Fund === known[n] || Str === known[n]) && !used[n] }
      typedefs.each do |td|
        next unless td.file && @program.files[td.file - 1][1]
        next if td.full == td.rep || td.name.start_with?('__') || !registry.include?(td.rep)
        out << ['typedef', "#{td.full} is #{aliases[td.full].inspect} instead of #{td.rep}"] unless aliases[td.full] == td.rep
      end
      aliases.each do |n, target|
        next if n == '/std/string' || @program.respond_to?(:aliases)
        x = n.dup
        typedefs.sort_by { |td| -td.full.size }.each { |td| x = x.gsub(/(?<![\w>])#{Regexp.quote td.full}(?![\w\/<])/, td.rep) }
        out << ['alias', "#{n} is an alias of #{target}, and stands for #{x}"] unless x == target && x != n
      end
      out
    end
    def compare(n, t, d)
      out = []
      bad = -> (key, what) { out << [key, "#{n}: #{what}"] }
      case d
      when Rec
        return [['kind', "#{n} is not a compound"]] unless t.superclass <= Typelib::CompoundType || t < Typelib::CompoundType
        got = t.fields.map { |f, ft| [f, ft.name, t.offset_of(f)] }
        want = d.all_fields.map { |f, ft, o| [f, ft.rep, o] }
        bad['fields', "#{got} instead of #{want}"] unless got == want
        bad['size', "#{t.size} instead of #{d.size}"] unless t.size == d.size
        bases = d.bases.reject { |b| b.type.empty? }.map { |b| b.type.rep }
        bad['bases', "#{t.metadata.get('base_classes')} instead of #{bases}"] unless t.metadata.get('base_classes').sort == bases.sort
        lines = {}
        line_of(d, lines)
        t.fields.each do |f, _|
          got = t.field_metadata[f].get('source_file_line')
          bad['field-line', "#{f}: #{got} instead of #{lines[f]}"] unless got == [lines[f]]
        end
        located(t, d, bad)
      when Enum
        return [['kind', "#{n} is not an enum"]] unless t < Typelib::EnumType
        got = t.keys.map { |k, v| [k.to_s, v] }.to_h
        bad['values', "#{got} instead of #{d.values}"] unless got == d.values
        bad['size', "#{t.size}"] unless t.size == d.size
        located(t, d, bad)
      when Arr
        bad['array', "#{t.length} of #{t.deference.name}"] unless t < Typelib::ArrayType && t.length == d.length && t.deference.name == d.type.rep
        bad['cxxname', t.metadata.get('cxxname').inspect] unless t.metadata.get('cxxname') == ["#{element_name(d.type)}[#{d.length}]"] || !@program.decls.any? ||
          @opaques.include?(d.type.rep) || @program.decls.any? { |x| Rec === x && x.args && x.args.include?(d) } # made from the name of the template
      when Ptr
        bad['pointer', "of #{t.deference.name}"] unless t < Typelib::PointerType && t.deference.name == d.type.rep
      when Vec
        bad['container', "of #{t.deference.name}"] unless t < Typelib::ContainerType && t.deference.name == d.type.rep && t.container_kind == '/std/vector'
      when Str
        bad['container', ''] unless t < Typelib::ContainerType && t.container_kind == '/std/string'
      when Fund
        bad['size', "#{t.size}"] unless t.size == d.size || d.typelib == '/nil'
      end
      out
    end
    def element_name(d)
      d = d.type while Typedef === d || Cv === d
      case d
      when Ptr then "#{element_name(d.type)}*"
      when Arr then "#{element_name(d.type)}[#{d.length}]"
      when Fund then d.rep[1..-1]
      when Str then '::std::string'
      else d.cxxname
      end
    end
    def path(d) @program.files[d.file - 1][0] end
    def line_of(d, lines)
      d.bases.each { |b| line_of(b.type, lines) }
      d.fields.each { |f| lines[f.name] = "#{path(d)}:#{f.line || d.line}" }
    end
    def located(t, d, bad)
      bad['cxxname', "#{t.metadata.get('cxxname')} instead of #{d.cxxname}"] unless t.metadata.get('cxxname') == [d.cxxname]
      got = t.metadata.get('source_file_line')
      bad['line', "#{got} instead of #{path(d)}:#{d.line}"] unless got == ["#{path(d)}:#{d.line}"]
    end
  end
  def self.children(t)
    if t < Typelib::CompoundType then t.fields.map { |_, f| f.name }
    elsif t.respond_to?(:deference) && (t < Typelib::ArrayType || t < Typelib::PointerType || t < Typelib::ContainerType) then [t.deference.name]
    else []
    end
  end
  def self.dump(r)
    types, aliases = {}, {}
    r.each(with_aliases: true) do |n, t|
      if n == t.name then types[n] = t else aliases[n] = t.name end
    end
    [types, aliases]
  end
end

module Cxx
  # the ways of writing the type of a field
  class Kit
    attr_reader :p, :ctx, :f, :other
    def initialize(p, f, other, ctx) @p, @f, @other, @ctx, @made = p, f, other, ctx, {} end
    def once(n) @made[n] ||= yield end
    def s; once(:s) { p.add(Rec.new('S2', ctx, [['sx', F[:double]], ['sy', F[:short]]]), f, 20) } end
    def o; once(:o) { p.add(Rec.new('Other', Ns.new('far'), [['ox', F[:char]], ['oe', oe]]), other, 5) } end
    def oe; once(:oe) { p.add(Enum.new('OE', nil, { 'OE0' => 0, 'OE1' => 1 }), other, 3) } end
    def priv; once(:priv) { p.add(Rec.new('Priv', ctx, [['a', F[:int]], ['b', F[:int], 'private']], kind: 'Class'), f, 24) } end
    def inc; once(:inc) { p.add(Rec.new('Inc', ctx, incomplete: true), f, 26) } end
    def e; once(:e) { p.add(Enum.new('E', ctx, { 'EA' => -1, 'EB' => 7, 'EC' => 7 }), f, 28) } end
    def e8; once(:e8) { p.add(Enum.new('E8', ctx, { 'E8A' => 1 }, size: 1), f, 29) } end
    def big; once(:big) { p.add(Enum.new('Big', ctx, { 'BA' => 0, 'BB' => 4294967295 }), f, 30) } end
    def ti; once(:ti) { p.add(Typedef.new('TI', ctx, F[:uint]), f, 31) } end
    def ts; once(:ts) { p.add(Typedef.new('TS', ctx, s), f, 32) } end
    def tts; once(:tts) { p.add(Typedef.new('TTS', ctx, ts), f, 33) } end
    def ta; once(:ta) { p.add(Typedef.new('TA', ctx, Arr.new(F[:int], 3)), f, 34) } end
    def tp; once(:tp) { p.add(Typedef.new('TP', ctx, ptr_s), f, 35) } end
    def tb; once(:tb) { p.add(Typedef.new('TB', ctx, BAD[:ldouble]), f, 35) } end
    def to; once(:to) { p.add(Typedef.new('TO', nil, o), other, 36) } end
    def tmpl; once(:tmpl) { p.add(Rec.new('Tm', ctx, [['tv', F[:int]]], args: [F[:int], 4]), f, 37) } end
    def tmpl2; once(:tmpl2) { p.add(Rec.new('Tm', ctx, [['tw', s]], args: [s, 2]), f, 37) } end
    def str; once(:str) { Str.new } end
    def strt; once(:strt) { d = Typedef.new('string', STD, str); p.decls << d; d } end
    def ptr_s; once(:ptr_s) { Ptr.new(s) } end
    def vint; once(:vint) { Vec.new(F[:int]) } end
    def vs; once(:vs) { Vec.new(s) } end
    def anon; once(:anon) { p.add(Rec.new(nil, ctx, [['an', F[:int]]]), f, 38) } end
    def get(k)
      once([:field, k]) do
        case k
        when :int, :uchar, :double, :bool, :ulong then F[k]
        when :ldouble then BAD[k]
        when :s, :e, :e8, :big, :o, :to, :priv, :inc, :ti, :ts, :tts, :ta, :tp, :tb, :tmpl, :tmpl2, :strt, :vint, :vs, :anon then send(k)
        when :ptr_int then Ptr.new(F[:int])
        when :ptr_ptr then Ptr.new(Ptr.new(F[:int]))
        when :ptr_void then Ptr.new(VOID)
        when :ptr_s then ptr_s
        when :ptr_inc then Ptr.new(inc)
        when :ptr_ti then Ptr.new(ti)
        when :arr then Arr.new(F[:int], 3)
        when :arr2 then Arr.new(Arr.new(F[:uchar], 3), 2)
        when :arr_s then Arr.new(s, 2)
        when :arr_ptr then Arr.new(ptr_s, 2)
        when :arr_bad then Arr.new(priv, 2)
        when :c_int then Cv.new(F[:int])
        when :v_double then Cv.new(F[:double], %w{volatile})
        when :cv_s then Cv.new(s, %w{const volatile})
        when :c_vec then Cv.new(vint)
        when :c_tmpl then Cv.new(tmpl)
        when :ptr_cs then Ptr.new(Cv.new(s))
        when :c_ptr then Cv.new(Ptr.new(F[:int]))
        when :c_ts then Cv.new(ts)
        when :c_arr then Arr.new(Cv.new(F[:short]), 2)
        when :ptr_c_ptr then Ptr.new(Cv.new(Ptr.new(Cv.new(F[:int]))))
        when :vv then Vec.new(vint)
        when :vstr then Vec.new(str)
        when :vptr then Vec.new(ptr_s)
        when :vpriv then Vec.new(priv)
        when :vppriv then Vec.new(Ptr.new(priv))
        when :vbad then Vec.new(BAD[:ldouble])
        when :vo then Vec.new(o)
        when :vt then Vec.new(tmpl)
        when :ve then Vec.new(e)
        when :union then Other.new('Union')
        when :ref then Other.new('ReferenceType')
        when :fptr then Ptr.new(Other.new('FunctionType'))
        end
      end
    end
  end
  KINDS = %i{int uchar double bool ulong ldouble s e e8 big o to priv ti ts tts ta tp tb tmpl tmpl2 strt vint vs anon ptr_int ptr_ptr ptr_void ptr_s ptr_inc ptr_ti
             arr arr2 arr_s arr_ptr arr_bad c_int v_double cv_s c_vec c_tmpl ptr_cs c_ptr c_ts c_arr ptr_c_ptr vv vstr vptr vpriv vppriv vbad vo vt ve union ref fptr self arr_self vec_self bits}
  HERE = '/nonexistent/here.hh'; THERE = '/nonexistent/there.hh'
  def self.context(i) n = Ns.new('na'); [nil, n, Ns.new('nb', n)][i] end
  # registers the declarations, in one order or in the reverse one, and judges
  def self.judge(p, what, opaques: [])
    reverse = MC.choose(2, :order) == 1
    MC.unit
    r = begin
          p.load(opaques: opaques, reverse: reverse)
        rescue Interrupt, SystemExit, MC::Prune, MC::Skip, MC::Failure then raise
        rescue Exception => e
          MC.fail('load-fails', "#{what}: #{e.class}: #{e.message[0, 300]} at #{e.backtrace.first.split('/').last}")
        end
    o = Oracle.new(p, opaques)
    MC.step
    list = o.problems(r)
    MC.fail(list[0][0], "#{what}#{reverse ? ' (reversed)' : ''}: #{list.map(&:last).join('; ')}\n#{p.xml(reverse: reverse)}") unless list.empty?
    [r, o]
  end
end

module Bodies
  class << self
    # structures of every pair of kinds of fields
    def cxx_fields
      a = MC.pick(Cxx::KINDS, :first)
      b = MC.pick([nil] + Cxx::KINDS, :second)
      ci = MC.choose(MC.thorough? ? 3 : 2, :context)
      p = Cxx::Program.new
      f, g = p.file(Cxx::HERE), p.file(Cxx::THERE, false)
      ctx = Cxx.context(ci == 1 ? 2 : ci == 2 ? 1 : 0)
      kit = Cxx::Kit.new(p, f, g, ctx)
      make = lambda do |k|
        case k
        when :self, :arr_self, :vec_self, :bits then Cxx::F[:ulong]
        else kit.get(k)
        end
      end
      s = Cxx::Rec.new('Top', ctx, [['fa', make[a]]] + (b ? [['fb', make[b]]] : []))
      s.fields.zip([a, b]).each_with_index do |(fd, k), i|
        fd.line = 42 + i
        fd.bits = 3 if k == :bits
        fd.type = Cxx::Ptr.new(s) if k == :self
        fd.type = Cxx::Arr.new(Cxx::Ptr.new(s), 1) if k == :arr_self
      end
      if (i = [a, b].index(:vec_self))
        v = Cxx::Vec.new(s)
        fields = s.fields.map { |fd| [fd.name, fd.type] }
        fields[i][1] = v
        MC.prune if [a, b].any? { |k| %i{self arr_self bits}.include?(k) }
        s.fields.replace(Cxx::Rec.new('Top', ctx, fields).fields)
        s.layout
        s.fields.each_with_index { |fd, j| fd.line = 42 + j }
      end
      p.add(s, f, 41)
      p.add(Cxx::Rec.new('Witness', nil, [['w', Cxx::F[:float]]]), f, 60)
      Cxx.judge(p, "Top { #{a}; #{b} }")
    end
  end
end

module Bodies
  class << self
    # what makes a structure representable, and what uses it
    BASES = [:none, :one, :two, :empty, :empty_and_one, :chain, :only_base, :private, :protected, :virtual, :of_virtual, :of_private_field, :template, :far, :tail_padding, :private_empty]
    USERS = [:none, :field, :pointer, :array, :vector, :typedef, :base, :two_levels]
    def cxx_records
      bases = MC.pick(BASES, :bases)
      trait = MC.pick([:plain, :klass, :private_field, :protected_field, :virtual_method, :virtual_destructor, :incomplete, :no_fields, :nested, :nested_private, :nested_protected, :static, :packed], :trait)
      user = MC.pick(USERS, :user)
      where = MC.pick([:here, :there], :file)
      ci = MC.choose(MC.thorough? ? 3 : 2, :context)
      p = Cxx::Program.new
      f, g = p.file(Cxx::HERE), p.file(Cxx::THERE, false)
      ctx = Cxx.context(ci == 1 ? 2 : ci == 2 ? 1 : 0)
      here = where == :here ? f : g
      i, d, c = Cxx::F[:int], Cxx::F[:double], Cxx::F[:char]
      rec = -> (n, fields, line, file: f, **o) { p.add(Cxx::Rec.new(n, ctx, fields, **o), file, line) }
      b = lambda do |k|
        case k
        when :none then []
        when :one then [[rec['B1', [['b1', d], ['b2', c]], 3]]]
        when :two then [[rec['B1', [['b1', i]], 3]], [rec['B2', [['b2', d]], 5]]]
        when :empty then [[rec['B0', [], 3]]]
        when :empty_and_one then [[rec['B0', [], 3]], [rec['B1', [['b1', d]], 4]]]
        when :chain then [[rec['B2', [['b2', c]], 6, bases: [[rec['B1', [['b1', d]], 3]]]]]]
        when :only_base, :packed then [[rec['B1', [['b1', i]], 3]]]
        when :private then [[rec['B1', [['b1', i]], 3], 'private']]
        when :protected then [[rec['B1', [['b1', i]], 3], 'protected']]
        when :virtual then [[rec['B1', [['b1', i]], 3], 'public', true]]
        when :of_virtual then [[rec['B1', [['b1', i]], 3, virtuals: ['Method']]]]
        when :of_private_field then [[rec['B1', [['b1', i, 'private']], 3]]]
        when :template then [[rec['BT', [['b1', i]], 3, args: [i]]]]
        when :far then [[rec['B1', [['b1', i]], 3, file: g]]]
        when :tail_padding then [[rec['B1', [['b1', d], ['b2', c]], 3, bases: [[rec['B0', [], 2]]]]]]
        when :private_empty then [[rec['B0', [], 3], 'private']]
        end
      end
      bs = b[bases]
      fields = bases == :only_base || trait == :no_fields ? [] : [['f1', c], ['f2', i]]
      opts = { bases: bs }
      ctx0 = ctx
      case trait
      when :klass then opts[:kind] = 'Class'
      when :private_field then fields = [['f1', c], ['f2', i, 'private']]
      when :protected_field then fields = [['f1', c, 'protected']]
      when :virtual_method then opts[:virtuals] = ['Method']
      when :virtual_destructor then opts[:virtuals] = ['Destructor']
      when :incomplete
        MC.prune unless bases == :none && ![:field, :array, :base, :two_levels, :vector].include?(user)
        opts[:incomplete] = true
        fields = []
      when :nested, :nested_private, :nested_protected
        outer = rec['Outer', [['o1', i]], 8]
        ctx = outer
        opts[:access] = { nested: 'public', nested_private: 'private', nested_protected: 'protected' }[trait]
      end
      s = p.add(Cxx::Rec.new('Sub', ctx, fields, **opts), here, 10)
      ctx = ctx0
      if trait == :packed
        o = s.bases.map { |x| x.type.size }.sum
        s.fields.each { |fd| fd.offset = o; o += fd.type.size }
        MC.prune unless bases == :none
        s.instance_variable_set(:@size, o); s.instance_variable_set(:@align, 1)
      end
      s.fields.each_with_index { |fd, k| fd.line = 11 + k }
      MC.prune if user == :base && !s.incomplete && s.has_vtable?
      case user
      when :field then rec['User', [['u', s], ['v', i]], 20]
      when :pointer then rec['User', [['u', Cxx::Ptr.new(s)]], 20]
      when :array then rec['User', [['u', Cxx::Arr.new(s, 3)]], 20]
      when :vector then rec['User', [['u', Cxx::Vec.new(s)]], 20]
      when :typedef then rec['User', [['u', p.add(Cxx::Typedef.new('Alias', ctx, trait == :incomplete ? Cxx::Ptr.new(s) : s), f, 18)]], 20]
      when :base then rec['User', [['u', i]], 20, bases: [[s]]]
      when :two_levels then rec['Last', [['l', rec['User', [['u', s], ['v', i]], 20]]], 30]
      end
      rec['Witness', [['w', Cxx::F[:float]]], 60]
      Cxx.judge(p, "#{trait} Sub of #{bases}, declared #{where}, used as #{user}")
    end

    # template instances: names and arguments
    ARGS = [:int, :s, :far, :tmpl, :vec, :str, :three, :neg, :true, :enumerator, :ptr_int, :ptr_s, :ptrptr, :ref, :char, :function, :array, :unsigned, :address]
    def cxx_templates
      first = MC.pick(ARGS, :first)
      second = MC.pick([nil] + (MC.thorough? ? ARGS : %i{int s three tmpl ptr_s ref far neg}), :second)
      ci = MC.choose(3, :context)
      use = MC.pick([:none, :field, :vector, :nested, :typedef], :use)
      p = Cxx::Program.new
      f, g = p.file(Cxx::HERE), p.file(Cxx::THERE, false)
      ctx = Cxx.context(ci)
      kit = Cxx::Kit.new(p, f, g, ctx)
      arg = lambda do |k|
        case k
        when :int then Cxx::F[:int]
        when :unsigned then Cxx::F[:uint]
        when :s then kit.s
        when :far then kit.o
        when :tmpl then kit.tmpl
        when :vec then kit.vs
        when :str then kit.str
        when :three then 3
        when :neg then -12
        when :true then Cxx::Arg.new('true', '/true')
        when :enumerator then kit.e; Cxx::Arg.new((kit.e.cxxparts[1..-2] + ['EA']).join('::'), kit.e.full.sub(/E$/, 'EA'))
        when :ptr_int then Cxx::Ptr.new(Cxx::F[:int])
        when :ptr_s then kit.ptr_s
        when :ptrptr then Cxx::Ptr.new(kit.ptr_s)
        when :ref then Cxx::Arg.new('int &', nil)
        when :char then Cxx::Arg.new("'a'", nil)
        when :function then Cxx::Arg.new('void (int)', nil)
        when :array then Cxx::Arr.new(Cxx::F[:int], 3)
        when :address then Cxx::Arg.new('&global', nil)
        end
      end
      args = [first, second].compact.map { |k| arg[k] }
      t = p.add(Cxx::Rec.new('Tpl', ctx, [['t1', Cxx::F[:short]], ['t2', Cxx::F[:double]]], args: args), f, 40)
      case use
      when :field then p.add(Cxx::Rec.new('User', nil, [['u', t]]), f, 45)
      when :vector then p.add(Cxx::Rec.new('User', nil, [['u', Cxx::Vec.new(t)], ['v', Cxx::F[:char]]]), f, 45)
      when :nested
        MC.prune unless t.rep
        n = p.add(Cxx::Rec.new('Inner', t, [['n', Cxx::F[:int]]], access: 'public'), f, 44)
        p.add(Cxx::Rec.new('User', nil, [['u', n], ['v', Cxx::Vec.new(n)]]), f, 45)
      when :typedef
        td = p.add(Cxx::Typedef.new('Alias', ctx, t), f, 45)
        p.add(Cxx::Rec.new('User', nil, [['u', td]]), f, 46)
      end
      p.add(Cxx::Rec.new('Witness', nil, [['w', Cxx::F[:float]]]), f, 60)
      Cxx.judge(p, "#{t.cxxname} used as #{use}")
    end
  end
end
require 'tmpdir'
require 'fileutils'

module Bodies
  class << self
    DOC_STYLES = [:none, :one_line, :one_line_c, :stars, :stars_end, :slashes3, :slashes2, :two_blocks]
    TEXTS = [['Some text'], ['First line', 'second line'], ['Head', '', 'after an empty line'], ['Head', '  indented', 'back'], ['Head', 'x', '   indented'], ["\u9999 multiline", "with \u1290"],
             ['Head', '@meta key value'], ['@meta key some words  ', '@meta other_1 x=<1>', '@meta key again'], ['mail@meta no']]
    def doc_lines(style, text, indent)
      l = case style
          when :none then []
          when :one_line then ["/** #{text.join(' ')} */"]
          when :one_line_c then ["/* #{text.join(' ')} */"]
          when :stars then ['/**'] + text.map { |x| x.empty? ? ' *' : " * #{x}" } + [' */']
          when :stars_end then ["/* #{text[0]}"] + text.drop(1).map { |x| x.empty? ? ' *' : " * #{x}" }.tap { |a| a.empty? ? a << ' */' : a[-1] += ' */' }
          when :slashes3 then text.map { |x| "/// #{x}".rstrip }
          when :slashes2 then text.map { |x| "// #{x}".rstrip }
          when :two_blocks then ["/** #{text[0]} */"] + text.drop(1).map { |x| "// #{x}".rstrip }
          end
      l.map { |x| ' ' * indent + x }
    end
    def doc_text(style, text)
      case style
      when :none then nil
      when :one_line, :one_line_c then [text.join(' ')]
      else text
      end
    end
    # comments in source files
    def cxx_documented
      style = MC.pick(DOC_STYLES, :style)
      text = style == :none ? ['x'] : MC.pick(TEXTS, :text)
      subject = MC.pick([:struct, :enum, :field, :second_field, :inherited_field, :derived], :subject)
      top = MC.pick([:top, :after_code, :after_blank], :position)
      tail = MC.pick([:code, :comment, :blank], :tail)
      of_field = %i{field second_field inherited_field}.include?(subject)
      gap = of_field && !MC.thorough? ? 0 : MC.choose(2, :gap)
      brace = of_field ? :same : MC.pick([:same, :next, :next_reported], :brace)
      plain = !MC.thorough? && (text.size > 1 || gap > 0 || brace != :same || tail != :code)
      name = plain ? 'plain.hh' : MC.pick(['plain.hh', 'od:d:3.hh', 'a=b.hh', 'a&b <c>.hh'], :file)
      dir = Dir.mktmpdir('mc-cxx')
      begin
        lines = case top
                when :top then []
                when :after_code then ['#pragma once', 'int x; // not this', '']
                when :after_blank then ['']
                end
        doc = doc_lines(style, text, subject == :struct || subject == :enum || subject == :derived ? 0 : 4) + [''] * gap
        p = Cxx::Program.new
        path = File.join(dir, name)
        f = p.file(path)
        i = Cxx::F[:int]
        open_at = lambda do |decl|       # declares, and gives the reported line
          case brace
          when :same then lines << "#{decl} {"; lines.size
          when :next then lines << decl << '{'; lines.size - 1
          when :next_reported then lines << decl << ' {'; lines.size
          end
        end
        expected = {}
        shift = brace == :next_reported ? 1 : 0
        if subject == :enum
          lines.concat(doc)
          d = p.add(Cxx::Enum.new('Subject', nil, { 'A' => 0 }), f, open_at['enum Subject'])
          lines << '    A' << '};'
          expected['/Subject'] = true
        else
          field_subject = %i{field second_field inherited_field}.include?(subject)
          lines.concat(doc) if subject == :struct
          at = open_at['struct Subject']
          d = p.add(Cxx::Rec.new('Subject', nil, [['fa', i], ['fb', i]]), f, at)
          %w{fa fb}.each_with_index do |n, k|
            lines.concat(doc) if field_subject && (subject == :second_field) == (k == 1)
            lines << "    int #{n}; // about #{n}"
            d.fields[k].line = lines.size
          end
          lines << '};'
          if subject == :inherited_field || subject == :derived
            lines << ''
            lines.concat(doc) if subject == :derived
            at = open_at['struct Derived : public Subject']
            e = p.add(Cxx::Rec.new('Derived', nil, [['fc', i]], bases: [[d]]), f, at)
            lines << '    int fc;' << '};'
            e.fields[0].line = lines.size - 1
          end
        end
        # without the brace, the line of the name
        decls = p.decls.dup
        lines.concat({ code: ['#endif'], comment: ['// vim: set et:', '/* the end */'], blank: ['', ''] }[tail])
        File.write(path, lines.join("\n") + "\n")
        reported = decls.map { |x| [x, x.line] }.to_h
        p.xml if false
        r = nil
        rev = MC.thorough? ? MC.choose(2, :order) == 1 : gap == 1
        MC.unit
        begin
          r = p.load(reverse: rev)
        rescue MC::Prune, MC::Skip, MC::Failure then raise
        rescue Exception => ex
          MC.fail('load-fails', "#{lines.join("\n")}\n#{ex.class}: #{ex.message[0, 300]} at #{ex.backtrace.first.split('/').last}")
        end
        decls.each { |x| x.line -= shift if x.name == 'Subject' || x.name == 'Derived' } # the brace has a line of its own
        list = Cxx::Oracle.new(p).problems(r)
        MC.fail(list[0][0], "#{list.map(&:last).join('; ')}\n#{lines.join("\n")}") unless list.empty?
        want = doc_text(style, text)
        metas = Hash.new { |h, k| h[k] = [] }
        (want || []).each { |l| metas[$1] << $2.strip if l =~ /\A@meta (\w+)\s+(.*)\z/ }
        look = lambda do |what, md, documented|
          got = md.get('doc')
          w = documented && want ? [want.map(&:rstrip)] : []
          g = got.map { |x| x.split("\n", -1).map(&:rstrip) }
          MC.check(g == w, 'documentation', "#{what} is documented as #{got.inspect} instead of #{w.inspect}\n#{lines.join("\n")}")
          keys = (documented ? metas : {}).map { |k, v| [k, v.uniq.sort] }.to_h
          have = (md.keys - %w{doc cxxname source_file_line base_classes}).map { |k| [k, md.get(k).sort] }.to_h
          MC.check(have == keys, 'meta-tags', "#{what} has #{have} instead of #{keys}\n#{lines.join("\n")}")
        end
        look['Subject', r.get('/Subject').metadata, %i{struct enum}.include?(subject)]
        if subject != :enum
          s = r.get('/Subject')
          look['fa', s.field_metadata['fa'], %i{field inherited_field}.include?(subject)]
          look['fb', s.field_metadata['fb'], subject == :second_field]
          if %i{inherited_field derived}.include?(subject)
            x = r.get('/Derived')
            look['Derived', x.metadata, subject == :derived]
            look['Derived.fa', x.field_metadata['fa'], subject == :inherited_field]
            look['Derived.fc', x.field_metadata['fc'], false]
          end
        end
      ensure
        FileUtils.remove_entry(dir)
      end
    end

    # typedefs and opaques
    def cxx_named
      p = Cxx::Program.new
      f, g = p.file(Cxx::HERE), p.file(Cxx::THERE, false)
      na, nb = Cxx::Ns.new('na'), Cxx::Ns.new('nb')
      target = MC.pick(%i{int struct far enum pointer array vector string template private double_ptr nested}, :target)
      kit = Cxx::Kit.new(p, f, g, na)
      t = case target
          when :int then Cxx::F[:int]
          when :struct then kit.s
          when :far then kit.o
          when :enum then kit.e
          when :pointer then kit.ptr_s
          when :array then Cxx::Arr.new(kit.s, 3)
          when :vector then kit.vs
          when :string then kit.strt
          when :template then kit.tmpl2
          when :private then kit.priv
          when :double_ptr then Cxx::Ptr.new(kit.ptr_s)
          when :nested then p.add(Cxx::Rec.new('Inner', kit.s, [['in', Cxx::F[:char]]], access: 'public'), f, 22)
          end
      shape = []
      types = [t]
      # each typedef is of the target, or of the previous one
      2.times do |k|
        of = MC.choose(k == 0 ? 2 : 3, :of)    # 0: none
        next if of == 0
        less = k == 1 && !MC.thorough?
        ctx = MC.pick(less ? [na, nb] : [nil, na, nb, :nested], :context)
        name = MC.pick(k == 0 ? %w{Ta __hidden} : %w{Tb Ta}, :name)
        file = less ? f : MC.pick([f, g], :file)
        x = of == 1 ? t : types.last
        MC.prune if of == 2 && types.size == 1
        ctx, access = p.decls.find { |d| d.name == 'Owner' } || p.add(Cxx::Rec.new('Owner', nb, [['ow', Cxx::F[:int]]]), f, 40), 'public' if ctx == :nested
        old = p.decls.find { |d| Cxx::Typedef === d && d.full == '/' + ((ctx ? ctx.parts : []) + [name]).join('/') }
        MC.prune if old && !(old.type.equal?(x))      # C++ refuses it
        types << p.add(Cxx::Typedef.new(name, ctx, x, access: access), file, 50 + k)
        shape << "#{types.last.full} of #{of}#{file == g ? ' there' : ''}"
      end
      use = MC.pick(%i{none field vector pointer array qualified}, :use)
      last = types.last
      u = case use
          when :none then nil
          when :field then last
          when :vector then Cxx::Vec.new(last)
          when :pointer then Cxx::Ptr.new(last)
          when :array then Cxx::Arr.new(last, 2)
          when :qualified then Cxx::Cv.new(last)
          end
      MC.prune if use == :vector && target == :array
      p.add(Cxx::Rec.new('User', na, [['u', u], ['v', Cxx::F[:char]]]), f, 60) if u
      p.add(Cxx::Rec.new('Witness', nil, [['w', Cxx::F[:float]]]), f, 70)
      Cxx.judge(p, "#{target}, #{shape.join(', ')}, #{use}")
    end

    # names in C++ and in Typelib
    NAME_LEAVES = %w{int ns::S S* 3 -2 a::b::C unsigned\ int}
    def cxx_names
      comps = MC.choose(3, :components) + 1
      cxx, tl = [], []
      arg = lambda do |depth|
        k = MC.choose(depth > 0 ? NAME_LEAVES.size + 1 : NAME_LEAVES.size, :argument)
        if k == NAME_LEAVES.size
          a = arg[depth - 1]
          b = MC.choose(2, :more) == 1 ? arg[0] : nil
          tail = MC.choose(2, :inner) == 1
          [['t::U', '<', a[0], *(b ? [',', b[0]] : []), '>', *(tail ? ['::V'] : [])].flatten, "/t/U<#{[a, b].compact.map(&:last).join(',')}>#{'/V' if tail}"]
        else
          n = NAME_LEAVES[k]
          [[n], n =~ /^-?\d/ ? n : '/' + n.gsub('::', '/')]
        end
      end
      tokens, tl = [], ''.dup
      parts = []
      comps.times do |i|
        tokens << '::' if i > 0
        n = %w{alpha Beta c3}[i]
        case MC.choose(comps == 3 && !MC.thorough? ? 2 : 3, :template)
        when 0 then tokens << n; part = n
        when 1
          a = arg[comps == 1 ? 2 : comps == 2 && MC.thorough? ? 1 : 0]
          tokens.concat([n, '<', *a[0], '>']); part = "#{n}<#{a[1]}>"
        when 2
          a, b = arg[comps == 1 ? 1 : 0], arg[0]
          tokens.concat([n, '<', *a[0], ',', *b[0], '>']); part = "#{n}<#{a[1]},#{b[1]}>"
        end
        parts << part
      end
      tl = '/' + parts.join('/')
      MC.unit
      l = Typelib::GCCXMLLoader
      spaced = -> (style) do
        out = ''.dup
        tokens.each_with_index do |t, i|
          nxt = tokens[i + 1]
          out << case style
                 when 0 then t == ',' ? ', ' : t == '>' && nxt == '>' ? '> ' : t
                 when 1 then t == ',' ? ',' : t
                 when 2 then %w{< , >}.include?(t) ? " #{t} " : t
                 when 3 then t == ',' ? ' ,' : t == '<' ? ' <' : t.end_with?('*') ? t.sub('*', ' *') : t
                 end
        end
        out.gsub(/\s+::/, '::').strip
      end
      (0..3).each do |st|
        text = spaced[st]
        got = l.cxx_to_typelib(text)
        MC.check(got == tl, 'cxx_to_typelib', "#{text} gives #{got} instead of #{tl}")
        MC.check(l.cxx_to_typelib(text.dup.freeze) == tl, 'cxx_to_typelib', "#{text}, frozen")
      end
      back = l.new.typelib_to_cxx(tl.dup)
      MC.check(back.delete(' ') == tokens.join.delete(' '), 'typelib_to_cxx', "#{tl} gives #{back} instead of #{tokens.join}")
      got = l.split_first_namespace(tl)
      want = parts.size == 1 ? ['/', parts[0]] : ["/#{parts[0]}/", parts.drop(1).join('/')]
      MC.check(got == want, 'split_first_namespace', "#{tl} gives #{got} instead of #{want}")
      got = l.split_last_namespace(tl)
      want = [parts.size == 1 ? '/' : "/#{parts[0..-2].join('/')}/", parts.last]
      MC.check(got == want, 'split_last_namespace', "#{tl} gives #{got} instead of #{want}")
      MC.check(Typelib.split_typename(tl) == parts, 'split_typename', "#{tl} gives #{Typelib.split_typename(tl)} instead of #{parts}")
      MC.check(Typelib.basename(tl) == parts.last && Typelib.namespace(tl) == (parts.size == 1 ? '/' : "/#{parts[0..-2].join('/')}/"), 'basename', "#{tl}: #{Typelib.namespace(tl)} and #{Typelib.basename(tl)}") if Typelib.respond_to?(:basename)
      MC.step
    end
  end
end

module Bodies
  class << self
    # a job server that counts, and has a number of tokens (nil: enough)
    class Jobs
      attr_reader :gets, :puts, :most, :held
      def initialize(tokens) @m, @c, @tokens, @limit, @gets, @puts, @held, @most = Mutex.new, ConditionVariable.new, tokens && 0, tokens, 0, 0, 0, 0 end
      def put
        @m.synchronize { @puts += 1; @tokens += 1 if @tokens; @c.broadcast }
      end
      def get
        @m.synchronize { @c.wait(@m) while @tokens && @tokens <= 0; @tokens -= 1 if @tokens; @gets += 1; @held += 1; @most = [@most, @held].max }
        return unless block_given?
        begin
          yield
        ensure
          @m.synchronize { @puts += 1; @held -= 1; @tokens += 1 if @tokens; @c.broadcast }
        end
      end
    end
    CASTXML = <<-'SH'
#!/bin/sh
for f; do last=$f; done
if [ -p "$last.go" ]; then read x < "$last.go"; fi
if [ -f "$last.fail" ]; then exit 1; fi
while IFS= read -r l; do printf '%s\n' "$l"; done < "$last.xml"
    SH
    # several files, in parallel
    def cxx_loaded
      count = MC.choose(3, :files) + 1
      level = MC.choose(count + 1, :parallel) + 1
      outcomes = Array.new(count) { MC.pick(%i{ok fails malformed}, :outcome) }
      MC.prune if outcomes.count { |o| o != :ok } > (MC.thorough? ? 3 : 1)
      tokens = level > 1 ? MC.pick([nil, 1], :tokens) : nil
      start = MC.pick(%i{empty same opaque other conflict}, :registry)
      api = MC.pick(level > 1 ? %i{loader} : %i{loader import deprecated}, :api)
      # the order in which the files are done, with level - 1 of them at once
      running, waiting, order = [], (0...count).to_a, []
      until running.empty? && waiting.empty?
        running << waiting.shift while running.size < [level - 1, 1].max && !waiting.empty?
        order << running.delete_at(tokens ? 0 : MC.choose(running.size, :done))
      end
      MC.unit
      dir = Dir.mktmpdir('mc-cxx')
      path, ENV['PATH'] = ENV['PATH'], "#{dir}/bin:#{ENV['PATH']}"
      begin
        Dir.mkdir("#{dir}/bin")
        File.write("#{dir}/bin/castxml", CASTXML); File.chmod(0755, "#{dir}/bin/castxml")
        int, dbl = Cxx::F[:int], Cxx::F[:double]
        names = (0...count).map { |i| "#{dir}/f#{i}.hh" }
        names.each_with_index do |n, i|
          p = Cxx::Program.new
          h = p.file(n); c = p.file("#{dir}/common.hh", false)
          na = Cxx::Ns.new('na')
          common = p.add(Cxx::Rec.new('Common', na, [['c', dbl]]), c, 3)
          p.add(Cxx::Rec.new('Unused', na, [['c', dbl]]), c, 7)
          s = p.add(Cxx::Rec.new("S#{i}", na, [['a', int], ['c', common]]), h, 5)
          p.add(Cxx::Typedef.new("T#{i}", na, s), h, 9)
          if i > 0                # includes the first one
            z = p.file(names[0])
            p.add(Cxx::Rec.new('S0', na, [['a', int], ['c', common]]), z, 5)
          end
          File.write("#{n}.xml", outcomes[i] == :malformed ? "<?xml version=\"1.0\"?>\n<nothing/>\n" : p.xml)
          File.write("#{n}.fail", '') if outcomes[i] == :fails
          File.write(n, "x\n" * 12)
          system('mkfifo', "#{n}.go") unless tokens || level == 1
        end
        r = Typelib::Registry.new
        case start
        when :same
          r.create_numeric('/double', 8, :float); r.create_compound('/na/Common', 8) { |c| c.add('c', '/double', 0) }
        when :opaque then r.create_opaque('/na/Common', 0)
        when :other then r.create_numeric('/mine', 3, :uint); r.alias('/yours', '/mine')
        end
        # what the last of the files says is not what the registry says
        r.create_numeric("/na/S#{count - 1}", 5, :sint) if start == :conflict
        view = lambda do
          Cxx.dump(r).then { |t, a| [t.transform_values { |x| x < Typelib::CompoundType ? [x.size, x.fields.map { |n, f| [n, f.name, x.offset_of(n)] }] : x.opaque? ? :opaque : [x.size] }, a] }
        end
        before = view.call
        jobs = Jobs.new(tokens)
        threads = Thread.list
        run = Thread.new do
          Thread.current.report_on_exception = false
          case api
          when :loader then Typelib::CastXMLLoader.load(r, names[0], 'c', required_files: names, parallel_level: level, job_server: jobs)
          when :import then r.import(names[0], 'c', required_files: names)
          when :deprecated then Typelib::CXX.load(r, names[0], 'c', cxx_importer: 'castxml', required_files: names)
          end
          :done
        end
        (Thread.list - threads).each { |t| t.report_on_exception = false }
        Thread.report_on_exception = false
        unless tokens || level == 1
          order.each do |i|
            limit = Process.clock_gettime(Process::CLOCK_MONOTONIC) + 10
            begin
              File.open("#{names[i]}.go", File::WRONLY | File::NONBLOCK) { |io| io.write("go\n") }
            rescue Errno::ENXIO       # not read yet
              sleep(0.001)
              retry if run.alive? && Process.clock_gettime(Process::CLOCK_MONOTONIC) < limit
            end
          end
        end
        what = "#{outcomes.zip(names).map(&:inspect)}, #{level} in parallel, #{tokens.inspect} tokens, done in the order #{order}, registry #{start}, #{api}"
        error = nil
        begin
          MC.check(run.join(60), 'hangs', "#{what}: does not end")
          run.value
        rescue MC::Failure, MC::Prune, MC::Skip then raise
        rescue Exception => error
        end
        MC.step
        bad = outcomes.any? { |o| o != :ok } || start == :conflict
        MC.check(bad == !error.nil?, 'outcome', "#{what}: #{error ? "#{error.class} #{error.message} #{error.backtrace.first(2)}" : 'no exception'}")
        if error
          MC.check(error.is_a?(outcomes.include?(:fails) && !outcomes.include?(:malformed) && start != :conflict ? ArgumentError : StandardError), 'error', "#{what}: #{error.class} #{error.message}")
          now = view.call
          now = now.zip(before).map { |n, b| n.slice(*b.keys) } if start == :conflict # the merge itself may have added types
          MC.check(now == before, 'failed-modified', "#{what}: the registry is modified")
        else
          types = { '/double' => [8], '/int32_t' => [4], '/na/Common' => [8, [['c', '/double', 0]]] }
          if start == :opaque
            types['/na/Common'] = :opaque
            types.delete('/double')
          end
          types['/mine'] = [3] if start == :other
          aliases = start == :other ? { '/yours' => '/mine' } : {}
          count.times { |i| types["/na/S#{i}"] = [16, [['a', '/int32_t', 0], ['c', '/na/Common', 8]]]; aliases["/na/T#{i}"] = "/na/S#{i}" }
          got = view.call
          MC.check(got[0] == types, 'types', "#{what}: #{(got[0].to_a - types.to_a).inspect} instead of #{(types.to_a - got[0].to_a).inspect}")
          MC.check(got[1].slice(*aliases.keys) == aliases && (got[1].keys - aliases.keys).empty?, 'aliases', "#{what}: #{got[1]} instead of #{aliases}")
          count.times do |i|
            MC.check(r.get("/na/S#{i}").metadata.get('source_file_line') == ["#{names[i]}:5"], 'line', "#{what}: S#{i} is at #{r.get("/na/S#{i}").metadata.get('source_file_line')}")
          end
          MC.check(level == 1 || jobs.gets == jobs.puts, 'tokens', "#{what}: #{jobs.gets} taken and #{jobs.puts} given back")
        end
        MC.check(!tokens || jobs.most <= tokens + 1, 'tokens', "#{what}: #{jobs.most} jobs at once")
        MC.state([outcomes, level, tokens, order, start, api].inspect)
      ensure
        ENV['PATH'] = path
        run.kill if run && run.alive?
        (Thread.list - threads - [Thread.current]).each do |t|
          t.kill
          begin
            t.join(5)
          rescue Exception # the error the thread ended with
          end
        end if threads
        FileUtils.remove_entry(dir)
      end
    end
    # what the importers are run with
    RECORDER = <<-'SH'
#!/bin/sh
d="${0%/*}/.."
for a; do printf '%s\n' "$a"; last=$a; case "$a" in -fxml=*) xml="${a#-fxml=}";; esac; done > "$d/args"
echo "${0##*/}" > "$d/tool"
if [ -f "$d/fail" ]; then exit 3; fi
case " $* " in
*" -E "*|*" --preprocess "*) while IFS= read -r l; do printf '%s\n' "$l"; done < "$last";;
*) if [ -n "$xml" ]; then exec > "$xml"; fi
   while IFS= read -r l; do printf '%s\n' "$l"; done < "$d/xml";;
esac
    SH
    def cxx_invoked
      tool = MC.pick(%i{castxml gccxml real}, :tool)
      action = MC.pick(%i{load import deprecated preprocess}, :action)
      fails = MC.choose(2, :fails) == 1
      lists = { rawflags: [[], ['-std=c++11'], ['-isystem', '/with space', '-I /x']], define: [[], ['A'], ['B="x y"', 'C=<1>']],
                include: [[], ['/inc'], ['/b', '/a']], include_paths: [[], ['/paths dir']] }
      options = lists.map { |k, l| v = MC.choose(l.size + 1, k); v == l.size ? nil : [k, l[v]] }.compact.to_h
      MC.prune if action == :import && tool != :castxml
      MC.unit
      dir = Dir.mktmpdir('mc-cxx')
      env = ENV.to_h.slice('PATH', 'TYPELIB_CXX_LOADER')
      begin
        Dir.mkdir("#{dir}/bin")
        ENV['PATH'] = "#{dir}/bin:#{ENV['PATH']}"
        ENV['TYPELIB_CXX_LOADER'] = tool == :castxml ? 'castxml' : 'gccxml'
        { castxml: ['castxml'], gccxml: ['gccxml'], real: ['gccxml', 'gccxml.real'] }[tool].each { |n| File.write("#{dir}/bin/#{n}", RECORDER); File.chmod(0755, "#{dir}/bin/#{n}") }
        file = "#{dir}/a file.hh"
        p = Cxx::Program.new
        p.add(Cxx::Rec.new('S', nil, [['a', Cxx::F[:int]]]), p.file(file), 2)
        File.write("#{dir}/xml", p.xml); File.write(file, "x\n" * 3)
        File.write("#{dir}/fail", '') if fails
        loader = tool == :castxml ? Typelib::CastXMLLoader : Typelib::GCCXMLLoader
        r = Typelib::Registry.new
        what = "#{action} with #{tool}, #{options}#{', which fails' if fails}"
        error = result = nil
        begin
          case action
          when :load then loader.load(r, file, 'c', castxml: tool == :castxml, **options)
          when :import then r.import(file, 'c', **options)
          when :deprecated then Typelib::CXX.load(r, file, 'c', castxml: tool == :castxml, **options)
          when :preprocess then result = loader.preprocess([file, '/other.hh'], 'c', castxml: tool == :castxml, **options)
          end
        rescue ArgumentError => error
        end
        MC.step
        MC.check(fails == !error.nil?, 'outcome', "#{what}: #{error ? error.message : 'no exception'}")
        MC.check(error.message.include?(file), 'error', "#{what}: #{error.message}") if error
        types = Cxx.dump(r)[0].keys
        want = error || action == :preprocess ? [] : ['/S', '/int32_t']
        MC.check(types.sort == want, 'types', "#{what}: #{types}")
        MC.check(result == "#include <#{file}>\n#include </other.hh>\n", 'preprocessed', "#{what}: #{result.inspect}") if action == :preprocess && !error
        ran = File.read("#{dir}/tool").chomp
        MC.check(ran == (tool == :real ? 'gccxml.real' : tool.to_s), 'tool', "#{what}: runs #{ran}")
        args = File.read("#{dir}/args").split("\n")
        flags = (options[:rawflags] || []) + (options[:define] || []).map { |d| "-D#{d}" }
        incs = ((options[:include] || []) + (options[:include_paths] || [])).map { |d| "-I#{d}" }
        # in their order, there are others
        at = -> (list) { i = -1; list.all? { |x| i = args.each_index.find { |j| j > i && args[j] == x } } }
        MC.check([options[:rawflags] || [], (options[:define] || []).map { |d| "-D#{d}" }, incs].all?(&at), 'arguments', "#{what}: #{args}")
        rest = args - flags - incs
        MC.check(rest.none? { |a| a.start_with?('-I', '-std', '-isystem') || (a.start_with?('-D') && a != '-DEIGEN_DONT_VECTORIZE') }, 'arguments', "#{what}: #{args}")
        MC.check(action == :preprocess || args.include?(file), 'arguments', "#{what}: #{args}")
        MC.state([tool, action, fails, options].inspect)
      ensure
        ENV.update('TYPELIB_CXX_LOADER' => nil); ENV.update(env)
        FileUtils.remove_entry(dir)
      end
    end
    # declarations of the same name in several namespaces
    def cxx_homonyms
      na = Cxx::Ns.new('na'); inner = Cxx::Ns.new('nb', na); nb = Cxx::Ns.new('nb'); deep = Cxx::Ns.new('na', nb)
      contexts = [nil, na, inner, nb, deep]
      a, b = MC.choose(5, :context), MC.choose(5, :context)
      MC.prune if a == b || !MC.thorough? && a > 2 && b > 2
      first, second = Array.new(2) { MC.pick(%i{record enum typedef far}, :kind) }
      use = MC.pick(%i{field pointer vector array typedef argument base vectors arguments}, :use)
      at = MC.pick(MC.thorough? ? [2, 30] : [30], :line)
      uc = MC.pick(MC.thorough? ? [nil, na, inner, nb] : [nil, inner], :user_context)
      p = Cxx::Program.new
      f, g = p.file(Cxx::HERE), p.file(Cxx::THERE, false)
      int = Cxx::F[:int]
      make = -> (kind, ctx, line, n) do
        case kind
        when :record then p.add(Cxx::Rec.new('S', ctx, Array.new(n) { |i| ["s#{i}", int] }), f, line)
        when :far then p.add(Cxx::Rec.new('S', ctx, Array.new(n) { |i| ["s#{i}", int] }), g, line)
        when :enum then p.add(Cxx::Enum.new('S', ctx, { "S#{n}" => n }), f, line)
        when :typedef then p.add(Cxx::Typedef.new('S', ctx, p.add(Cxx::Rec.new("Real#{n}", nil, Array.new(n) { |i| ["r#{i}", int] }), f, line + 5)), f, line)
        end
      end
      MC.prune if use == :base && (first != :record && first != :far)
      user = -> (t) do
        rec = -> (n, fields, **o) { p.add(Cxx::Rec.new(n, uc, fields, **o), f, at) }
        case use
        when :field then rec['User', [['u', t], ['v', int]]]
        when :pointer then rec['User', [['u', Cxx::Ptr.new(t)]]]
        when :vector then rec['User', [['u', Cxx::Vec.new(t)]]]
        when :vectors then rec['User', [['u', Cxx::Vec.new(Cxx::Vec.new(t))]]]
        when :array then rec['User', [['u', Cxx::Arr.new(t, 3)]]]
        when :typedef then p.add(Cxx::Typedef.new('Alias', uc, t), f, at)
        when :argument then rec['Tp', [['v', int]], args: [t]]
        when :arguments then rec['Tp', [['v', t]], args: [t, Cxx::Vec.new(t)]]
        when :base then rec['User', [['v', int]], bases: [[t]]]
        end
      end
      t = make[first, contexts[a], 10, 1]
      make[second, contexts[b], 20, 2]
      user[t]
      Cxx.judge(p, "#{first} in #{a} and #{second} in #{b}, the first used as #{use}")
      MC.state([a, b, first, second, use, at, uc && uc.name].inspect)
    end
    # types that are declared to be opaque
    def cxx_opaques
      kind = MC.pick(%i{struct klass private empty virtual incomplete enum far template typedef_struct typedef_far typedef_template typedef_vector typedef_pointer typedef_private typedef_typedef typedef_int typedef_enum typedef_string typedef_array unknown}, :kind)
      ci = MC.choose(3, :context)
      use = MC.pick(%i{none field pointer vector array base typedef argument nested qualified direct}, :use)
      again = MC.pick(%i{none field vector homonym}, :again)
      p = Cxx::Program.new
      f, g = p.file(Cxx::HERE), p.file(Cxx::THERE, false)
      ctx = Cxx.context(ci)
      kit = Cxx::Kit.new(p, f, g, ctx)
      int = Cxx::F[:int]
      rec = -> (n, fields, line, **o) { p.add(Cxx::Rec.new(n, ctx, fields, **o), f, line) }
      t = case kind
          when :struct then rec['Op', [['x', int], ['s', kit.s]], 10]
          when :klass then rec['Op', [['x', int]], 10, kind: 'Class']
          when :private then rec['Op', [['x', int, 'private']], 10]
          when :empty then rec['Op', [], 10]
          when :virtual then rec['Op', [['x', int]], 10, virtuals: ['Method']]
          when :incomplete then rec['Op', [], 10, incomplete: true]
          when :enum then p.add(Cxx::Enum.new('Op', ctx, { 'OpA' => 1 }), f, 10)
          when :far then p.add(Cxx::Rec.new('Op', ctx, [['x', int]]), g, 10)
          when :template then rec['Op', [['x', int]], 10, args: [int, 3]]
          when :typedef_struct then kit.s
          when :typedef_far then kit.o
          when :typedef_template then kit.tmpl2
          when :typedef_vector then kit.vs
          when :typedef_pointer then kit.ptr_s
          when :typedef_private then kit.priv
          when :typedef_typedef then kit.ts
          when :typedef_int then int
          when :typedef_enum then kit.e
          when :typedef_string then kit.strt
          when :typedef_array then Cxx::Arr.new(kit.s, 3)
          end
      # not what opaques are for: /int32_t would no longer be a number
      MC.prune if %i{typedef_int typedef_string typedef_array typedef_pointer typedef_vector}.include?(kind)
      typedef = kind.to_s.start_with?('typedef')
      name = typedef ? "/#{((ctx ? ctx.parts : []) + ['Op']).join('/')}" : t ? t.full : '/nowhere/Op'
      target = t
      t = p.add(Cxx::Typedef.new('Op', ctx, t), f, 10) if typedef
      [t, target].compact.each { |d| d.define_singleton_method(:rep) { name } }
      target.type.define_singleton_method(:rep) { name } if kind == :typedef_typedef
      used = use == :direct ? target : t
      MC.prune if use == :direct && !typedef
      MC.prune if !t && (use != :none || again != :none)
      MC.prune if again == :homonym && !%i{none field vector}.include?(use)
      MC.prune if kind == :incomplete && %i{field array base vector qualified}.include?(use) || kind == :incomplete && ![:none, :homonym].include?(again)
      MC.prune if use == :base && (kind == :enum || kind == :typedef_enum || kind == :virtual || typedef)
      MC.prune if use == :nested && !(Cxx::Rec === target && !typedef && kind != :incomplete && kind != :far)
      i = int
      case use
      when :field, :direct then rec['User', [['u', used], ['v', i]], 20]
      when :pointer then rec['User', [['u', Cxx::Ptr.new(used)]], 20]
      when :array then rec['User', [['u', Cxx::Arr.new(used, 3)]], 20]
      when :vector then rec['User', [['u', Cxx::Vec.new(used)]], 20]
      when :typedef then rec['User', [['u', p.add(Cxx::Typedef.new('Alias', ctx, used), f, 18)]], 20] unless kind == :incomplete
      when :base then rec['User', [['v', i]], 20, bases: [[used]]].define_singleton_method(:rep) { nil } # where its fields are is not known
      when :argument then rec['Tp', [['v', i]], 20, args: [used]]
      when :nested then rec['User', [['u', p.add(Cxx::Rec.new('Inner', t, [['in', Cxx::F[:char]]], access: 'public'), f, 18)]], 20]
      when :qualified then rec['User', [['u', Cxx::Cv.new(used)]], 20]
      end
      case again
      when :field then rec['Again', [['u', t], ['v', i]], 30]
      when :vector then rec['Again', [['u', Cxx::Vec.new(t)]], 30]
      when :homonym
        # has nothing to do with it
        p.add(Cxx::Typedef.new('Op', [Cxx.context(1), Cxx::Ns.new('nb', ctx), ctx && ctx.context][ci], rec['Again', [['v', i]], 30]), f, 32)
      end
      p.add(Cxx::Rec.new('Witness', nil, [['w', Cxx::F[:float]]]), f, 60)
      r, _ = Cxx.judge(p, "opaque #{kind} #{name}, used as #{use} and #{again}", opaques: [name])
      md = r.get(name).metadata
      MC.check(md.get('opaque_is_typedef') == (typedef ? ['1'] : []), 'opaque-metadata', "#{kind} #{name}: opaque_is_typedef is #{md.get('opaque_is_typedef')}")
      MC.check(t.nil? || kind == :far || md.get('source_file_line').include?("#{Cxx::HERE}:10"), 'opaque-metadata', "#{kind} #{name}: #{md.get('source_file_line')}")
      MC.state([kind, ci, use, again].inspect)
    end
    CLANG = <<-'SH'
#!/bin/sh
d="${0%/*}/.."
for a; do printf '%s\n' "$a"; last=$a
case "$a" in -tlbSavePath=*) save="${a#-tlbSavePath=}";; -opaquePath=*) opaques="${a#-opaquePath=}";; esac; done > "$d/args"
if [ -f "$d/fail" ]; then exit 3; fi
if [ -n "$opaques" ]; then while IFS= read -r l; do printf '%s\n' "$l"; done < "$opaques" > "$d/opaques"; fi
if [ -n "$save" ]; then exec > "$save"; last="$d/tlb"; fi
while IFS= read -r l; do printf '%s\n' "$l"; done < "$last"
    SH
    def cxx_clang
      action = MC.pick(%i{load import deprecated preprocess}, :action)
      fails = MC.choose(2, :fails) == 1
      installed = MC.choose(2, :installed) == 1
      start = MC.pick(%i{empty opaques other conflict}, :registry)
      lists = { define: [[], ['A'], ['B="x y"', 'C=<1>']], (action == :preprocess ? :include : :include_paths) => [[], ['/inc'], ['/b', '/a a']], required_files: [['/x/y.hh', '/x/z.hh']] }
      options = lists.map { |k, l| v = MC.choose(l.size + 1, k); v == l.size ? nil : [k, l[v]] }.compact.to_h
      MC.prune if action == :preprocess && (start != :empty || options[:required_files])
      MC.unit
      require 'typelib/clang'
      dir = Dir.mktmpdir('mc-cxx')
      env = ENV.to_h.slice('PATH', 'TYPELIB_CXX_LOADER')
      begin
        Dir.mkdir("#{dir}/bin")
        ENV['PATH'] = "#{dir}/bin:#{ENV['PATH']}"
        ENV['TYPELIB_CXX_LOADER'] = 'clang'
        %w{typelib-clang-tlb-importer clang-3.4}.each { |n| File.write("#{dir}/bin/#{n}", CLANG); File.chmod(0755, "#{dir}/bin/#{n}") } if installed
        file = "#{dir}/a file.hh"
        File.write(file, "x\n")
        from = Typelib::Registry.new
        from.create_numeric('/int32_t', 4, :sint); from.create_compound('/na/S', 8) { |c| c.add('a', '/int32_t', 4) }; from.alias('/na/T', '/na/S')
        File.write("#{dir}/tlb", from.to_xml)
        File.write("#{dir}/fail", '') if fails
        r = Typelib::Registry.new
        case start
        when :opaques then r.create_opaque('/na/Op', 0); r.create_opaque('/Far', 4); r.create_numeric('/int32_t', 4, :sint)
        when :other then r.create_numeric('/mine', 2, :uint); r.alias('/yours', '/mine')
        when :conflict then r.create_numeric('/na/S', 2, :uint)
        end
        before = Cxx.dump(r).then { |t, a| [t.keys.sort, a] }
        what = "#{action} with clang, #{options}, registry #{start}#{', which fails' if fails}#{', not installed' unless installed}"
        error = result = nil
        begin
          case action
          when :load then Typelib::CLangLoader.load(r, file, 'c', **options)
          when :import then r.import(file, 'c', **options)
          when :deprecated then Typelib::CXX.load(r, file, 'c', cxx_importer: 'clang', **options)
          when :preprocess then result = Typelib::CXX.preprocess([file, '/other.hh'], 'c', **options)
          end
        rescue ArgumentError, RuntimeError => error
        end
        MC.step
        bad = fails || !installed || start == :conflict
        MC.check(bad == !error.nil?, 'outcome', "#{what}: #{error ? "#{error.class} #{error.message}" : 'no exception'}")
        got = Cxx.dump(r).then { |t, a| [t.keys.sort, a] }
        if error || action == :preprocess
          got = [got[0] & before[0], got[1]] if start == :conflict
          MC.check(got == before, 'failed-modified', "#{what}: #{got} instead of #{before}")
        else
          want = [(before[0] + %w{/int32_t /na/S}).uniq.sort, before[1].merge('/na/T' => '/na/S')]
          MC.check(got == want, 'types', "#{what}: #{got} instead of #{want}")
        end
        if installed && !fails
          MC.check(result == "#include <#{file}>\n#include </other.hh>\n", 'preprocessed', "#{what}: #{result.inspect}") if action == :preprocess && !error
          args = File.read("#{dir}/args").split("\n")
          flags = (options[:define] || []).map { |d| "-D#{d}" }
          incs = (options[:include] || options[:include_paths] || []).map { |d| "-I#{d}" }
          at = -> (list) { i = -1; list.all? { |x| i = args.each_index.find { |j| j > i && args[j] == x } } }
          MC.check([flags, incs].all?(&at) && (args - flags - incs).none? { |a| a.start_with?('-I', '-D') }, 'arguments', "#{what}: #{args}")
          if action != :preprocess
            dash = args.index('--') || args.size
            files = args[0...dash].reject { |a| a.start_with?('-') }
            MC.check(files == (options[:required_files] || [file]), 'arguments', "#{what}: #{args}")
            opaques = Cxx.dump(Typelib::Registry.from_xml(File.read("#{dir}/opaques")))[0]
            MC.check(opaques.keys.sort == (start == :opaques ? ['/Far', '/na/Op'] : []) && opaques.values.all?(&:opaque?), 'opaques', "#{what}: #{opaques.keys}")
          end
        end
        MC.state([action, fails, installed, start, options].inspect)
      ensure
        ENV.update('TYPELIB_CXX_LOADER' => nil); ENV.update(env)
        FileUtils.remove_entry(dir)
      end
    end
  end
end
