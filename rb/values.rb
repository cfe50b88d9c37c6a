# C29: access to the components of values
module Values
  Model.constants.each { |c| const_set(c, Model.const_get(c)) }
  FAMILY = [NEST, DYN, DEEP, UNION, Arr.new(I32, 3), Arr.new(PAD, 2), Arr.new(Arr.new(U8, 2), 2), Arr.new(STR, 2), Vec.new(I16), Vec.new(PAD), Vec.new(Vec.new(I32)),
            Vec.new(STR), Vec.new(U8), Vec.new(COLOR), Vec.new(F64), Model.struct('/Nums', *NUMS.map { |n| ["f_#{n.name[1..-1]}", n] }), Model.struct('/Strs', ['v', Vec.new(STR)], ['a', Arr.new(STR, 2)], ['n', I32])]
  class << self
    # two registries with the same definitions
    def reg(i = 0) (@regs ||= [nil, nil])[i] ||= Model.registry(*FAMILY) end

    # a value of type t that holds v
    def make(t, v, i = 0)
      x =
        if t.is_a?(Union)
          y = reg(i).get(t.name).new
          MC.poke(y.zone_address, t.pack(v))
          y
        else reg(i).get(t.name).from_buffer(t.pack(v), merge_skip_copy: false)
        end
      got = t.read(x.zone_address)
      MC.check(t.same?(got, v), 'from-buffer', "#{t.name}: from_buffer of #{v.inspect} gave #{got.inspect}")
      x
    end

    # components of a value: [path, type], and the value itself with []
    def slots(t, v, path = [], out = [])
      out << [path, t]
      case t
      when Compound then t.fields.each { |n, _, ft| slots(ft, v[n], path + [n], out) }
      when Arr, Vec then v.each_with_index { |e, i| slots(t.element, e, path + [i], out) }
      end
      out
    end
    def dig(v, path) path.inject(v) { |x, k| x[k] } end
    def update(t, v, path, w)
      return w if path.empty?
      k = path[0]
      w = update(type_at(t, [k]), v[k], path[1..-1], w)
      return t.with(k, w) if t.is_a?(Union)
      c = v.dup
      c[k] = w
      c
    end
    # address of a component, going through the memory
    def locate(t, a, path)
      return [t, a] if path.empty?
      k = path[0]
      case t
      when Compound then f = t.field(k); locate(f[2], a + f[1], path[1..-1])
      when Arr then locate(t.element, a + k * t.element.size, path[1..-1])
      when Vec then locate(t.element, MC.peek(a, 8).unpack1('Q') + k * t.element.size, path[1..-1])
      end
    end
    def type_at(t, path)
      path.inject(t) { |x, k| x.is_a?(Compound) ? x.field(k)[2] : x.element }
    end

    # the same value, as Ruby objects
    def plain(t, v, style = 0)
      case t
      when Compound then style == 1 ? t.fields.map { |n, _, ft| plain(ft, v[n], style) } : t.fields.map { |n, _, ft| [style == 2 ? n.to_sym : n, plain(ft, v[n], style)] }.to_h
      when Arr, Vec
        # the elements of vectors of enums have to be values
        v.map { |e| t.is_a?(Vec) && t.element.is_a?(Enum) ? make(t.element, e) : plain(t.element, e, style) }
      when Enum then style == 0 ? v : style == 1 ? v.to_s : t.map[v]
      when Num then v
      when Str then v.dup
      end
    end

    # what the bindings return for a component that holds v
    def shows(t, x, v, where)
      case t
      when Num, Enum
        x = x.to_ruby if x.kind_of?(Typelib::Type)
        ok = t.is_a?(Num) ? t.same?(x, v) : x == t.to_ruby(v)
        MC.check(ok, "read-#{t.is_a?(Num) ? t.name : 'enum'}", "#{where}: shows #{x.inspect} instead of #{v.inspect}")
      when Str
        x = x.to_ruby if x.kind_of?(Typelib::Type)
        MC.check(x.is_a?(String) && x.b == v.b, 'read-string', "#{where}: shows #{x.inspect} instead of #{v.inspect}")
      when Compound
        MC.check(x.kind_of?(Typelib::CompoundType), 'read-class', "#{where}: #{x.class} for a compound")
        t.fields.each do |n, _, ft|
          shows(ft, x[n], v[n], "#{where}[#{n}]")
          shows(ft, x.raw_get(n), v[n], "#{where} raw_get(#{n})")
          shows(ft, x.get(n.to_sym), v[n], "#{where} get(:#{n})")
          shows(ft, x.send(n), v[n], "#{where}.#{n}")
          shows(ft, x.send("raw_#{n}"), v[n], "#{where}.raw_#{n}")
        end
      when Arr, Vec
        MC.check(x.kind_of?(Array) || x.size == v.size, 'read-size', "#{where}: #{x.size} elements instead of #{v.size}")
        if x.kind_of?(Array)   # converted elements
          MC.check(x.size == v.size, 'read-size', "#{where}: #{x.size} elements instead of #{v.size}")
          v.each_with_index { |e, i| shows(t.element, x[i], e, "#{where}[#{i}]") }
        else
          v.each_with_index do |e, i|
            shows(t.element, x[i], e, "#{where}[#{i}]")
            shows(t.element, x.raw_get(i), e, "#{where} raw_get(#{i})")
          end
          [x.each.to_a, x.raw_each.to_a].each_with_index do |els, j|
            MC.check(els.size == v.size, 'each-size', "#{where}: each gives #{els.size} elements instead of #{v.size}")
            els.each_with_index { |el, i| shows(t.element, el, v[i], "#{where} #{j == 0 ? 'each' : 'raw_each'} #{i}") }
          end
        end
      end
    end

    # the same with a single way to get to each component
    def follows(t, x, v, where)
      case t
      when Compound
        t.fields.each { |n, _, ft| leaf?(ft) ? shows(ft, x[n], v[n], "#{where}[#{n}]") : follows(ft, x.raw_get(n), v[n], "#{where}[#{n}]") }
      when Arr, Vec
        MC.check(x.size == v.size, 'read-size', "#{where}: #{x.size} elements instead of #{v.size}")
        v.each_with_index { |e, i| leaf?(t.element) ? shows(t.element, x[i], e, "#{where}[#{i}]") : follows(t.element, x.raw_get(i), e, "#{where}[#{i}]") }
      else shows(t, x, v, where)
      end
    end
    def leaf?(t) t.is_a?(Num) || t.is_a?(Enum) || t.is_a?(Str) end

    def simple(t, v)
      case t
      when Num then v
      when Enum then v.to_s
      when Str then v
      when Compound then t.fields.map { |n, _, ft| [n, simple(ft, v[n])] }.to_h
      else v.map { |e| simple(t.element, e) }
      end
    end
    def same_simple?(a, b)
      case b
      when Float then a.is_a?(Float) && (a.nan? && b.nan? || [a].pack('E') == [b].pack('E'))
      when Hash then a.is_a?(Hash) && a.keys.sort == b.keys.sort && b.all? { |k, e| same_simple?(a[k], e) }
      when Array then a.is_a?(Array) && a.size == b.size && a.zip(b).all? { |x, y| same_simple?(x, y) }
      when String then a.is_a?(String) && a.b == b.b
      else a == b
      end
    end

    # a few values of each type, to keep the number of cases in bounds
    def some(t, n) vs = t.values; MC.thorough? || vs.size <= n ? vs : vs.first(n - 1) + [vs.last] end

    def holder(x, path) path[0..-2].inject(x) { |h, k| h.raw_get(k) } end
  end
end

module Bodies
  extend Model
  class << self
    # every component of every value can be read by all accessors
    def read
      t = MC.pick(Values::FAMILY, :type)
      MC.unit
      vs = Values.some(t, 12)
      v = MC.pick(vs, :value)
      x = Values.make(t, v)
      # a component of which the wrapper exists already, or the whole
      slots = Values.slots(t, v)
      path, st = MC.pick(slots, :component)
      y = path.inject(x) { |h, k| h.raw_get(k) }
      Values.shows(st, y, Values.dig(v, path), "#{t.name} #{v.inspect} at #{path.inspect}") unless path.empty?
      Values.shows(t, x, v, "#{t.name} #{v.inspect}")
      begin
        s = x.to_simple_value
        MC.check(Values.same_simple?(s, Values.simple(t, v)), 'to-simple-value', "#{t.name}: to_simple_value gives #{s.inspect} for #{v.inspect}")
      end
      after = t.read(x.zone_address)
      MC.check(t.same?(after, v), 'read-changes', "reading #{t.name} changed it from #{v.inspect} to #{after.inspect}")
      MC.step
      MC.state("#{t.name} #{path} #{v}")
    end

    WAYS = %i{plain symbols_or_arrays names_or_integers typelib other raw accessor}
    # changing a component changes this one and nothing else
    def write
      t = MC.pick(Values::FAMILY, :type)
      v = MC.pick(Values.some(t, 3), :value)
      slots = Values.slots(t, v).drop(1)
      MC.prune if slots.empty?
      path, st = MC.pick(slots, :component)
      MC.unit
      w = MC.pick(Values.some(st, 9), :new)
      way = MC.pick(WAYS, :way)
      warm = MC.choose(2, :warm)
      x = Values.make(t, v)
      if warm == 1      # the wrappers exist before the change
        Values.slots(t, v).each { |p, _| p.inject(x) { |h, k| h.raw_get(k) } }
      end
      h = Values.holder(x, path)
      k = path[-1]
      ht = Values.type_at(t, path[0..-2])
      a = x.zone_address
      before = MC.peek(a, t.size)
      vector_of_enums = ht.is_a?(Model::Vec) && st.is_a?(Model::Enum)
      converted = st.is_a?(Model::Str) || Values.slots(st, w).any? { |_, s| s.is_a?(Model::Str) }
      case way
      when :plain then MC.prune if vector_of_enums; h[k] = Values.plain(st, w)
      when :symbols_or_arrays
        MC.prune if vector_of_enums || [Model::Num, Model::Str].include?(st.class)
        ht.is_a?(Model::Compound) ? h.set(k.to_sym, Values.plain(st, w, 1)) : h[k] = Values.plain(st, w, 1)
      when :names_or_integers
        MC.prune if vector_of_enums || [Model::Num, Model::Str].include?(st.class)
        ht.is_a?(Model::Compound) ? h.set_field(k, Values.plain(st, w, 2)) : h[k] = Values.plain(st, w, 2)
      when :typelib then h[k] = Values.make(st, w)
      when :other then MC.prune if ht.is_a?(Model::Vec) && !Values.reg.get(ht.name).ancestors.include?(Typelib::ContainerType::ConvertFromRuby); h[k] = Values.make(st, w, 1)
      when :raw then h.raw_set(k, Values.make(st, w))
      when :accessor
        MC.prune unless ht.is_a?(Model::Compound)
        # accessors of converted fields return what they were given
        by_value = st.is_a?(Model::Compound) && h.class[k].contains_converted_types?
        h.send("#{k}=", by_value ? Values.make(st, w) : Values.plain(st, w))
        x.apply_changes_from_converted_types
        h.apply_changes_from_converted_types
      end
      MC.check(x.zone_address == a, 'moved', 'the value moved')
      at, aa = Values.locate(t, a, path)
      got = at.read(aa)
      MC.check(at.same?(got, w), "write-#{at.class.name[/\w+$/]}", "#{t.name} #{path.inspect} = #{w.inspect} (#{way}): the memory holds #{got.inspect}")
      begin
        want = Values.update(t, v, path, w)
        got = t.read(a)
        MC.check(t.same?(got, want), 'write-elsewhere', "#{t.name} #{v.inspect} at #{path.inspect} = #{w.inspect} (#{way}): the memory holds #{got.inspect}")
        Values.shows(t, x, want, "#{t.name} after #{path.inspect} = #{w.inspect} (#{way})")
      end
      if t.fixed?
        now = MC.peek(a, t.size)
        o = aa - a
        MC.check(now[0...o] == before[0...o] && now[o + at.size..-1] == before[o + at.size..-1], 'write-bytes', "#{t.name} #{path.inspect} = #{w.inspect} (#{way}): other bytes changed, #{before.inspect} to #{now.inspect}")
      end
      MC.step
      MC.count(way)
      MC.state("#{t.name} #{path} #{v} #{w}")
    end

    BAD = {
      Model::Num => [-> { 'xyz' }, -> { nil }, -> { Object.new }, -> { :RED }, -> { [1] }, -> { { 'a' => 1 } }, -> { Values.make(Model::PAD, Model::PAD.values[0]) }],
      Model::Enum => [-> { :NOPE }, -> { 1 << 32 }, -> { (1 << 32) + 5 }, -> { -(1 << 32) - 2 }, -> { 'NOPE' }, -> { 99 }, -> { nil }, -> { Object.new }, -> { [:RED] }, -> { Values.make(Model::PAD, Model::PAD.values[0]) }, -> { '' }, -> { 1.5 }],
      Model::Compound => [-> { 3 }, -> { 'x' }, -> { nil }, -> { { 'nope' => 1 } }, -> { Values.make(Model::I32, 4) }, -> { Object.new }, -> { Values.make(Model::Vec.new(Model::I16), [1]) }],
      Model::Arr => [-> { 3 }, -> { nil }, -> { [] }, -> { [1] * 9 }, -> { Values.make(Model::I32, 4) }, -> { Object.new }, -> { [nil, nil, nil] }, -> { [nil, nil] }, -> { Values.make(Model::PAD, Model::PAD.values[0]) }],
      Model::Vec => [-> { 3 }, -> { nil }, -> { [nil] }, -> { Values.make(Model::I32, 4) }, -> { Object.new }, -> { Values.make(Model::PAD, Model::PAD.values[0]) }, -> { [Object.new] }],
      Model::Str => [-> { 3 }, -> { nil }, -> { Object.new }, -> { Values.make(Model::I32, 4) }]
    }
    # what a component cannot hold is refused, and changes nothing
    def refuse
      t = MC.pick(Values::FAMILY, :type)
      MC.unit
      v = MC.pick(Values.some(t, 2), :value)
      path, st = MC.pick(Values.slots(t, v), :component)
      x = Values.make(t, v)
      a = x.zone_address
      warm = MC.choose(2, :warm)
      if warm == 1
        Values.slots(t, v).each { |p, _| p.inject(x) { |h, k| h.raw_get(k) } }
      end
      what = MC.pick(%i{value index converted}, :what)
      before = t.read(a)
      if what == :value || what == :converted
        bad = MC.pick(BAD[BAD.keys.find { |k| st.is_a?(k) }], :bad).call
        MC.prune if st.equal?(Model::PAD) && bad.kind_of?(Typelib::CompoundType)
        if path.empty? || what == :converted
          MC.prune if what == :converted && !path.empty?
          MC.refused('convert-accepted', "Typelib.from_ruby(#{bad.class}, #{st.name})") { Typelib.from_ruby(bad, x.class) }
        else
          h = Values.holder(x, path)
          MC.refused('write-accepted', "#{t.name} #{path.inspect} = #{bad.inspect}") { h[path[-1]] = bad }
        end
      else
        h = path.inject(x) { |y, k| y.raw_get(k) }
        n = Values.dig(v, path)
        case st
        when Model::Compound
          name = MC.pick(['nope', '', 'A', :nope, "a "], :name)
          MC.refused('field-accepted', "#{st.name}[#{name.inspect}]") { h[name] }
          MC.refused('field-accepted', "#{st.name}.raw_get(#{name.inspect})") { h.raw_get(name.to_s) }
          MC.refused('field-accepted', "#{st.name}[#{name.inspect}]=") { h[name] = 1 }
          MC.refused('field-accepted', "#{st.name}.raw_set(#{name.inspect})") { h.raw_set(name.to_s, 1) }
          MC.refused('field-accepted', "#{st.name} class [#{name.inspect}]") { h.class[name] }
          MC.check(!h.has_field?(name) && !h.class.has_field?(name), 'has-field', "#{st.name} has #{name.inspect}")
        when Model::Arr, Model::Vec
          i = MC.pick([-1, n.size, n.size + 1, -n.size - 1, 1 << 30, -(1 << 30)], :index)
          e = n.empty? ? st.element.values[0] : n[0]
          MC.refused('index-accepted', "#{st.name}[#{i}] of #{n.size}") { h[i] }
          MC.refused('index-accepted', "#{st.name}.raw_get(#{i}) of #{n.size}") { h.raw_get(i) }
          MC.refused('index-accepted', "#{st.name}[#{i}]= of #{n.size}") { h[i] = Values.make(st.element, e) }
          MC.refused('index-accepted', "#{st.name}.raw_set(#{i}) of #{n.size}") { h.raw_set(i, Values.make(st.element, e)) }
          MC.refused('index-accepted', "#{st.name}[#{i}, 1] of #{n.size}") { h[i, 1] }
          MC.refused('index-accepted', "#{st.name}[0, #{n.size + 1}] of #{n.size}") { h[0, n.size + 1] }
        else MC.prune
        end
      end
      after = t.read(a)
      MC.check(t.same?(after, before), 'refused-changed', "#{t.name}: changed from #{before.inspect} to #{after.inspect} by what was refused")
      MC.step
      MC.state("#{t.name} #{path} #{what}")
    end
  end
end

module Bodies
  class << self
    # character arrays, between fields that have to stay as they are
    def texts
      n = MC.choose(MC.thorough? ? 9 : 5, :length) + 1
      before = MC.pick([:zero, :ones, :text], :before)
      text = MC.pick((0..n + 1).map { |l| ('a'..'z').first(l).join } + ["a\0b", "\u00e9", "\xff".b], :text)
      way = MC.pick(%i{from_string from_string_known set converted accessor written_then_set}, :way)
      MC.unit
      @text_types ||= {}
      t = @text_types[n] ||= begin
        r = Typelib::CXXRegistry.new
        r.create_compound("/Text#{n}") { |c| c.a = '/uint8_t'; c.s = "/char[#{n}]"; c.b = '/uint8_t' }
      end
      x = t.new
      a = x.zone_address
      fill = { zero: "\0" * n, ones: "\xff".b * n, text: ('A'..'Z').first(n - 1).join + "\0" }[before]
      MC.poke(a, "\x11#{fill}\x22".b)
      fits = text.bytesize < n && !text.include?("\0")
      MC.prune if way == :accessor && !fits       # known when the value is used
      want = fits ? text.b.ljust(n, "\0") : fill.b
      done = true
      begin
        case way
        when :from_string then Typelib::Type.from_string(x.raw_get('s'), text, false)
        when :from_string_known then Typelib::Type.from_string(x.raw_get('s'), text, true)
        when :set then x['s'] = text
        when :converted then x.raw_set('s', Typelib.from_ruby(text, t['s']))
        when :accessor then x.s = text; x.apply_changes_from_converted_types
        when :written_then_set
          x['s'] = 'q' * (n - 1)
          want = ('q' * (n - 1)).ljust(n, "\0") unless fits
          x['s'] = text
        end
      rescue StandardError
        done = false
      end
      MC.check(done == fits, 'text-accepted', "#{text.inspect} in #{n} characters is #{done ? 'accepted' : 'refused'} (#{way})")
      got = MC.peek(a, n + 2)
      MC.check(got == "\x11".b + want.b + "\x22".b, 'text', "#{text.inspect} in #{n} characters (#{way}): #{got.inspect} instead of #{want.inspect}")
      want = want[0, want.index("\0") || n].b
      s = x.raw_get('s')
      [['to_str', -> { s.to_str }], ['to_string', -> { Typelib::Type.to_string(s, false) }], ['to_ruby', -> { Typelib.to_ruby(s) }], ['accessor', -> { x.s }]].each do |what, b|
        got = b.call
        MC.check(got.b == want, 'text-read', "#{got.inspect} instead of #{want.inspect} (#{what})")
      end
      # nothing is known of what pointers point to
      p = t.registry.build('/char*').zero rescue nil
      if p
        MC.refused('pointer-write', 'text written to a null pointer') { Typelib::Type.from_string(p, text, n.odd?) }
        MC.refused('pointer-write', 'text converted to a pointer') { Typelib.from_ruby(text, p.class) }
        MC.refused('pointer-read', 'text read from a null pointer') { p.to_str }
      end
      MC.step
      MC.state("#{n} #{text} #{before}")
    end
  end
end
