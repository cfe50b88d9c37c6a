# C29: operations on whole values
module Whole
  Model.constants.each { |c| const_set(c, Model.const_get(c)) }
  MORE = [I32, F64, U8, STR, COLOR, PAD, Arr.new(COLOR, 2), Arr.new(F32, 2), Arr.new(Arr.new(PAD, 2), 2), Vec.new(Arr.new(I16, 2)), Arr.new(Vec.new(I16), 2), Vec.new(DYN), Model.struct('/Tail', ['d', F64], ['p', PAD], ['c', I8])]
  FAMILY = Values::FAMILY + MORE
  class << self
    def make(t, v, i = 0)
      MORE.each { |m| Model.add(Values.reg(i), m) } unless (@more ||= {})[i]
      @more[i] = true
      Values.make(t, v, i)
    end
    def type(t, i = 0) make(t, t.values[0], i).class end
    # [offset, size] of the numbers; the first field of a union stands for all
    def leaves(t, at = 0)
      case t
      when Num, Enum then [[at, t.size]]
      when Union then leaves(t.fields[0][2], at)
      when Compound then t.fields.flat_map { |_, o, ft| leaves(ft, at + o) }
      when Arr then (0...t.length).flat_map { |i| leaves(t.element, at + i * t.element.size) }
      else []
      end
    end
    def swapped(t, bytes)
      b = bytes.dup
      leaves(t).each { |o, s| b[o, s] = bytes[o, s].reverse }
      b
    end
    def swapped_value(t, v)
      case t
      when Num then t.pack(v).reverse.unpack1(t.code)
      when Enum then i = t.pack(v).reverse.unpack1('l'); t.map.key(i) || i
      when Compound then t.fields.map { |n, _, ft| [n, swapped_value(ft, v[n])] }.to_h
      when Arr, Vec then v.map { |e| swapped_value(t.element, e) }
      else v
      end
    end
    # trailing padding, and where the data ends
    def data_end(t)
      case t
      when Compound then t.fields.map { |_, o, ft| o + data_end(ft) }.max
      when Arr then (t.length - 1) * t.element.size + data_end(t.element)
      else t.size
      end
    end
    # all but enums, which need not have a symbol for zero
    def zero?(t, v)
      case t
      when Num then v == 0
      when Enum then true
      when Compound then t.fields.all? { |n, _, ft| zero?(ft, v[n]) }
      when Arr then v.all? { |e| zero?(t.element, e) }
      else v.empty?
      end
    end
    def enums?(t)
      case t
      when Enum then true
      when Compound then t.fields.any? { |f| enums?(f[2]) }
      when Arr, Vec then enums?(t.element)
      end
    end
    # to_simple_value, with options
    def simple(t, v, o)
      case t
      when Num
        return v unless t.kind == :float && (v.nan? || v.infinite?)
        case o[:special_float_values]
        when :nil then nil
        when :string then v.nan? ? 'NaN' : v > 0 ? 'Infinity' : '-Infinity'
        else v
        end
      when Enum then v.to_s
      when Str then v
      when Compound then t.fields.map { |n, _, ft| [n, simple(ft, v[n], o)] }.to_h
      else
        if o[:pack_simple_arrays] && t.element.is_a?(Num)
          code = t.element.code
          code = { 's' => 's<', 'S' => 'S<', 'l' => 'l<', 'L' => 'L<', 'q' => 'q<', 'Q' => 'Q<' }[code] || code
          { pack_code: code, size: v.size, data: [v.pack(code + '*')].pack('m0') }
        else v.map { |e| simple(t.element, e, o) }
        end
      end
    end
    def strings?(t)
      case t
      when Str then true
      when Compound then t.fields.any? { |f| strings?(f[2]) }
      when Arr, Vec then strings?(t.element)
      end
    end
    def csv(t, v, name, header)
      case t
      when Num then [header ? name : t.kind == :float ? v : v.to_s]
      when Enum then [header ? name : v.is_a?(Integer) ? v.to_s : v.to_s]
      when Compound then t.fields.flat_map { |n, _, ft| csv(ft, v[n], "#{name}.#{n}", header) }
      when Arr then (0...t.length).flat_map { |i| csv(t.element, v[i], "#{name}[#{i}]", header) }
      end
    end
    # ways to change a value, all of which are refused once it is frozen
    def changes(t, x, w)
      other = -> { make(t, w) }
      list = [['zero!', -> { x.zero! }], ['copy', -> { Typelib.copy(x, other[]) }], ['from_buffer', -> { x.from_buffer(other[].to_byte_array) }]]
      list << ['endian_swap!', -> { x.endian_swap! }] if t.fixed?
      case t
      when Compound
        t.fields.each do |n, _, ft|
          y = -> { make(ft, w[n]) }
          list << ["[#{n}]=", -> { x[n] = y[] }] << ["set #{n}", -> { x.set(n, y[]) }] << ["raw_set #{n}", -> { x.raw_set(n, y[]) }] << ["raw_#{n}=", -> { x.send("raw_#{n}=", y[]) }] << ["set_field #{n}", -> { x.set_field(n.to_sym, y[]) }]
          list << ["#{n}=", -> { x.send("#{n}=", y[]); x.apply_changes_from_converted_types }]
        end
      when Arr
        y = -> { make(t.element, w[1]) }
        list << ['[]=', -> { x[0] = y[] }] << ['raw_set', -> { x.raw_set(1, y[]) }]
      when Vec
        y = -> { make(t.element, t.element.values[1]) }
        list << ['push', -> { x.push(y[]) }] << ['<<', -> { x << y[] }] << ['concat', -> { x.concat([y[]]) }] << ['clear', -> { x.clear }] << ['delete_if', -> { x.delete_if { true } }]
        list << ['erase', -> { x.erase(y[]) }] << ['[]=', -> { x[0] = y[] }] << ['raw_set', -> { x.raw_set(0, y[]) }] << ['raw_memcpy', -> { x.raw_memcpy(x.contained_memory_id, 1) }] if x.size > 0
      when Num then list << ['typelib_from_ruby', -> { x.typelib_from_ruby(w) }]
      when Enum then list << ['typelib_from_ruby', -> { x.typelib_from_ruby(w) }]
      when Str then list << ['concat', -> { x.concat('more') }] << ['clear', -> { x.clear }]
      end
      list
    end
  end
end

module Bodies
  class << self
    WHOLE = %i{marshal broken zero dup compare copy cast swap of_size simple texts csv memory pointers plain each}
    def whole
      t = MC.pick(Whole::FAMILY, :type)
      v = MC.pick(Values.some(t, 10), :value)
      MC.unit
      op = MC.pick(WHOLE, :operation)
      x = Whole.make(t, v)
      a = x.zone_address
      send("whole_#{op}", t, v, x)
      got = t.read(a)
      MC.check(t.same?(got, v), 'changed', "#{t.name} #{v.inspect}: changed to #{got.inspect} by #{op}") unless op == :zero
      MC.check(x.zone_address == a, 'moved', "#{t.name}: moved by #{op}")
      MC.step
      MC.state("#{op} #{t.name} #{v.inspect}")
      MC.count(op)
    end

    # marshalled, with all options, and loaded into something else
    def whole_marshal(t, v, x)
      o = { merge_skip_copy: MC.choose(2, :merge) == 1, remove_trailing_skips: MC.choose(2, :trailing) == 1 }
      b = x.to_byte_array(o)
      if t.is_a?(Model::Union)    # each of the fields is marshalled
      elsif !o[:merge_skip_copy]
        MC.check(b == t.pack(v), 'bytes', "#{t.name} #{v.inspect}: marshalled as #{b.inspect}")
      elsif t.fixed?
        want = MC.peek(x.zone_address, t.size)
        MC.check(want.start_with?(b) && b.size >= (o[:remove_trailing_skips] ? Whole.data_end(t) : t.size), 'bytes', "#{t.name} #{v.inspect}: marshalled as #{b.inspect} instead of #{want.inspect}")
      end
      MC.check(x.marshalling_size == x.to_byte_array.size, 'marshalling-size', "#{t.name}: #{x.marshalling_size}")
      w = MC.pick(Values.some(t, 4), :other)
      y = Whole.make(t, w)
      ya = y.zone_address
      Values.shows(t, y, w, t.name) if MC.choose(2, :warm) == 1
      z = y.from_buffer(b, o)
      got = t.read(ya)
      MC.check(z.equal?(y) && y.zone_address == ya && t.same?(got, v), 'from-buffer', "#{t.name}: #{got.inspect} after #{v.inspect} was loaded into #{w.inspect}")
      Values.shows(t, y, v, "#{t.name} after from_buffer")
      if o == { merge_skip_copy: true, remove_trailing_skips: true }
        z = x.class.wrap(b)
        MC.check(t.same?(t.read(z.zone_address), v), 'wrap', t.name)
      end
    end

    # buffers of a wrong size are refused
    def whole_broken(t, v, x)
      merge = MC.choose(2, :merge) == 1
      b = x.to_byte_array(merge_skip_copy: merge)
      y = Whole.make(t, Values.some(t, 2)[-1])
      extra = t.size - Whole.data_end(t)
      case what = MC.choose(b.size + 5, :length)
      when 0...b.size then bad = b[0, what]
      when b.size then bad = b + "\0" * (extra + 1)
      when b.size + 1 then bad = nil
      when b.size + 2 then bad = 12
      when b.size + 3 then bad = [b]
      when b.size + 4
        MC.prune unless t.is_a?(Model::Vec) || t.is_a?(Model::Str)
        bad = MC.pick([[1 << 63], [(1 << 64) - 1], [1 << 60], [v.size + 1]], :count).pack('Q') + b[8..-1]
      end
      MC.refused('buffer-accepted', "#{t.name}: loading #{bad.inspect} instead of #{b.inspect}") { y.from_buffer(bad, merge_skip_copy: merge) }
      got = t.read(y.zone_address)    # anything, but valid
      Values.shows(t, y, got, "#{t.name} after a buffer was refused") unless Whole.enums?(t)
      MC.refused('buffer-accepted', "#{t.name}: wrapping #{bad.inspect}") { x.class.from_buffer(bad, merge_skip_copy: merge) }
    end

    def whole_zero(t, v, x)
      warm = MC.choose(2, :warm)
      Values.shows(t, x, v, t.name) if warm == 1
      MC.check(x.zero!.equal?(x), 'zero', 'result')
      got = t.read(x.zone_address)
      MC.check(Whole.zero?(t, got), 'zero', "#{t.name} #{v.inspect}: #{got.inspect} after zero!")
      Values.shows(t, x, got, "#{t.name} after zero!")
      y = x.class.zero
      got = t.read(y.zone_address)
      MC.check(Whole.zero?(t, got), 'zero', "#{t.name}.zero: #{got.inspect}")
    end

    def whole_dup(t, v, x)
      y = MC.choose(2, :how) == 0 ? x.dup : x.clone
      MC.check(y.zone_address != x.zone_address && y.class.equal?(x.class) && t.same?(t.read(y.zone_address), v), 'dup', "#{t.name} #{v.inspect}: #{t.read(y.zone_address).inspect}")
      w = MC.pick(Values.some(t, 4), :other)
      Typelib.copy(y, Whole.make(t, w))
      MC.check(t.same?(t.read(y.zone_address), w), 'dup', "#{t.name}: the copy is #{t.read(y.zone_address).inspect} instead of #{w.inspect}")
      Values.shows(t, y, w, "copy of #{t.name}")
      Values.shows(t, x, v, "#{t.name} with a copy")
    end

    def whole_compare(t, v, x)
      w = MC.pick(t.values, :other)
      y = Whole.make(t, w, MC.choose(2, :registry))
      same = t.same?(v, w)
      [[x == y, same], [y == x, same], [x != y, !same], [Typelib.compare(x, y), same]].each_with_index { |(g, want), i| MC.check(g == want, 'compare', "#{t.name}: #{v.inspect} and #{w.inspect} compare as #{g} (#{i})") }
      MC.check(x == x, 'compare', "#{t.name}: itself")
      u = Whole::FAMILY[(Whole::FAMILY.index(t) + MC.choose(4, :type) + 1) % Whole::FAMILY.size]
      u = Whole::PAD if u.equal?(t)
      return if u.equal?(t)
      z = Whole.make(u, u.values[0])
      MC.refused('compare', "#{t.name} and #{u.name}") { x == z }
      MC.refused('copy', "#{t.name} and #{u.name}") { Typelib.copy(x, z) }
      leaf = Values.leaf?(t)
      [nil, Object.new, [], {}, :x].each { |o| MC.check(x != o || x.to_ruby == o, 'compare', "#{t.name} and #{o.inspect}") }
      if leaf && !(v.is_a?(Float) && v.nan?) && !t.is_a?(Model::Str)
        MC.check(x == t.to_ruby(v), 'compare', "#{t.name} and #{v.inspect}")
        MC.check((x == t.to_ruby(w)) == (t.to_ruby(v) == t.to_ruby(w)), 'compare', "#{t.name}: #{v.inspect} and #{w.inspect} in Ruby")
      end
    end

    def whole_copy(t, v, x)
      w = MC.pick(Values.some(t, 6), :other)
      y = Whole.make(t, w, MC.choose(2, :registry))
      Values.shows(t, y, w, t.name) if MC.choose(2, :warm) == 1
      ya = y.zone_address
      Typelib.copy(y, x)
      got = t.read(ya)
      MC.check(y.zone_address == ya && t.same?(got, v), 'copy', "#{t.name}: #{got.inspect} after a copy of #{v.inspect} over #{w.inspect}")
      Values.shows(t, y, v, "#{t.name} after a copy")
      Typelib.copy(y, y)
      MC.check(t.same?(t.read(ya), v), 'copy', "#{t.name} onto itself: #{t.read(ya).inspect}")
    end

    def whole_cast(t, v, x)
      other = Whole.type(t, 1)
      MC.check(x.class.casts_to?(other) && !x.class.equal?(other) && x.class == other, 'cast', "#{t.name}: the types of two registries")
      y = x.cast(other)
      MC.check(y.zone_address == x.zone_address && t.same?(t.read(y.zone_address), v), 'cast', t.name)
      # typelib keeps the object when the types are the same
      MC.check(y.equal?(x) || y.class.equal?(other), 'cast', "#{t.name}: #{y.class.inspect}")
      Values.shows(t, y, v, "cast of #{t.name}")
      MC.check(Typelib.from_ruby(x, other).zone_address == x.zone_address, 'cast', "#{t.name}: from_ruby")
      u = Whole::FAMILY[(Whole::FAMILY.index(t) + MC.choose(4, :type) + 1) % Whole::FAMILY.size]
      ut = Whole.type(u, 1)
      return if t.is_a?(Model::Compound) && t.fields[0][2].name == u.name || u.name == t.name
      MC.check(!x.class.casts_to?(ut), 'cast', "#{t.name} to #{u.name}")
      MC.refused('cast', "#{t.name} to #{u.name}") { x.cast(ut) }
    end

    def whole_swap(t, v, x)
      MC.prune if t.is_a?(Model::Union)    # which of the fields
      before = MC.peek(x.zone_address, t.size)
      if t.fixed?
        y = x.endian_swap
        want = Whole.swapped(t, before)
        got = MC.peek(y.zone_address, t.size)
        at = Whole.leaves(t)
        MC.check(at.all? { |o, s| got[o, s] == want[o, s] }, 'swap', "#{t.name}: #{got.inspect} instead of #{want.inspect}")
        z = y.endian_swap!
        MC.check(z.equal?(y), 'swap', 'result')
        got = MC.peek(y.zone_address, t.size)
        MC.check(at.all? { |o, s| got[o, s] == before[o, s] }, 'swap', "#{t.name}: #{got.inspect} instead of #{before.inspect} after both")
        Values.shows(t, y, v, "#{t.name} swapped back")
      else
        MC.refused('swap', t.name) { x.endian_swap }
        y = Whole.make(t, v)
        [Whole.swapped_value(t, v), v].each do |want|
          MC.check(y.endian_swap!.equal?(y), 'swap', 'result')
          MC.check(t.same?(t.read(y.zone_address), want), 'swap', "#{t.name}: #{t.read(y.zone_address)} instead of #{want.inspect}")
        end
      end
    end

    def whole_of_size(t, v, x)
      n = MC.choose(MC.thorough? ? 6 : 4, :count)
      r = Values.reg
      k = x.class.registry.create_container('/std/vector', x.class)
      y = MC.choose(2, :given) == 0 ? k.of_size(n, x) : k.of_size(n, x.dup)
      vt = Model::Vec.new(t)
      MC.check(vt.same?(vt.read(y.zone_address), [v] * n), 'of-size', "#{t.name}: #{vt.read(y.zone_address).inspect} instead of #{n} times #{v.inspect}")
      Values.shows(vt, y, [v] * n, "of_size of #{t.name}") unless t.is_a?(Model::Enum)
    end

    def whole_simple(t, v, x)
      o = {}
      case MC.choose(3, :floats)
      when 1 then o[:special_float_values] = :nil
      when 2 then o[:special_float_values] = :string
      end
      o[:pack_simple_arrays] = true if MC.choose(2, :pack) == 1
      json = MC.choose(2, :json) == 1
      got = json ? x.to_json_value(o) : x.to_simple_value(o)
      want = Whole.simple(t, v, json ? { special_float_values: :nil }.merge(o) : o)
      MC.check(Values.same_simple?(got, want), 'simple', "#{t.name}: #{got.inspect} instead of #{want.inspect} with #{o}")
      MC.refused('simple', 'bad option') { x.to_simple_value(special_float_values: :nope) } if t.is_a?(Model::Num) && t.kind == :float
    end

    def whole_texts(t, v, x)
      Values.shows(t, x, v, t.name) if MC.choose(2, :warm) == 1
      texts = [x.to_s, x.inspect, x.raw_to_s, x.class.to_s, x.class.inspect, PP.pp(x, +''), PP.pp(x.class, +'')]
      MC.check(texts.all? { |s| s.is_a?(String) && !s.empty? || t.is_a?(Model::Str) && v.empty? }, 'text', "#{t.name}: #{texts.inspect}")
      MC.check(texts[1].include?(t.name) && texts[3].include?(t.name) && texts[6].include?(t.name), 'text', "#{t.name}: #{texts.inspect}")
      MC.check(texts[0] == t.to_ruby(v).to_s, 'text', "#{t.name}: #{texts[0].inspect} for #{v.inspect}") if (t.is_a?(Model::Num) || t.is_a?(Model::Enum)) && v == v
    end

    def whole_csv(t, v, x)
      MC.prune if !t.fixed? || t.is_a?(Model::Union)
      sep = MC.pick([nil, ',', '; '], :separator)
      got = (sep ? x.to_csv(sep) : x.to_csv).split(sep || ' ', -1)
      want = Whole.csv(t, v, '', false)
      ok = got.size == want.size && got.zip(want).all? { |g, w| w.is_a?(Float) ? w.nan? && g =~ /nan/ || w.infinite? && g =~ /inf/ || (Float(g) - w).abs <= w.abs * 1e-6 : g == w }
      MC.check(ok, 'csv', "#{t.name}: #{got.inspect} instead of #{want.inspect}")
      base = MC.pick([nil, 'x'], :name)
      got = base ? (sep ? x.class.to_csv(base, sep) : x.class.to_csv(base)) : x.class.to_csv
      want = Whole.csv(t, v, base.to_s, true).join(base && sep || ' ')
      MC.check(got == want, 'csv-header', "#{t.name}: #{got.inspect} instead of #{want.inspect}")
    end

    def whole_memory(t, v, x)
      w = MC.pick(Values.some(t, 4), :other)
      y = Whole.make(t, w, MC.choose(2, :registry))
      if t.fixed?
        same = MC.peek(x.zone_address, t.size) == MC.peek(y.zone_address, t.size)
        MC.check(x.memory_eql?(y) == same, 'memory-eql', "#{t.name}: #{v.inspect} and #{w.inspect}")
      end
      MC.check(x.memory_eql?(x), 'memory-eql', "#{t.name} and itself")
      u = MC.pick([Whole::U8, Whole::I32, Whole::PAD, Whole::DEEP], :type)
      z = Whole.make(u, u.values[0])
      begin
        r = x.memory_eql?(z)
      rescue TypeError, ArgumentError
        MC.count(:refused)
      else
        MC.check(t.name == u.name || !r, 'memory-eql', "#{t.name} and #{u.name}")
      end
      MC.refused('memory-eql', t.name) { x.memory_eql?(MC.pick([nil, 3, x.class], :bad)) }
    end

    def whole_pointers(t, v, x)
      p = x.to_ptr
      MC.check(p.class.deference.equal?(x.class) && p.class.name == t.name + '*' && !p.null?, 'pointer', "#{t.name}: #{p.class.inspect}")
      MC.check(MC.peek(p.zone_address, 8).unpack1('Q') == x.zone_address, 'pointer', "#{t.name}: does not hold the address")
      MC.check(p.deference.equal?(x) && p.to_ruby.equal?(p), 'pointer', "#{t.name}: deference")
      q = p.class.wrap(p.to_memory_ptr)
      y = q.deference
      MC.check(y.zone_address == x.zone_address && y.class.equal?(x.class), 'pointer', "#{t.name}: deference of the same memory")
      Values.shows(t, y, v, "#{t.name} through a pointer")
      MC.refused('pointer', t.name) { p.dup }
      n = p.class.create_null
      MC.check(n.null? && n.to_ruby.nil?, 'pointer', "#{t.name}: null")
      MC.refused('pointer', t.name) { n.deference }
      MC.refused('pointer', t.name) { p.to_byte_array }
      MC.check(p.to_byte_array(accept_pointers: true) == [x.zone_address].pack('Q'), 'pointer', "#{t.name}: marshalled")
      MC.refused('pointer', t.name, NotImplementedError) { p.to_simple_value }
      pp = p.to_ptr
      MC.check(pp.deference.deference.equal?(x), 'pointer', "#{t.name}: pointer to a pointer")
      # it points to something else, then to nothing
      w = MC.pick(Values.some(t, 3), :other)
      y = Whole.make(t, w)
      p.from_buffer([y.zone_address].pack('Q'), accept_pointers: true)
      z = p.deference
      MC.check(z.zone_address == y.zone_address, 'pointer', "#{t.name}: deference gives what was pointed to before")
      Values.shows(t, z, w, "#{t.name} through a pointer that was changed")
      p.from_buffer([0].pack('Q'), accept_pointers: true)
      MC.check(p.null?, 'pointer', "#{t.name}: null")
      MC.refused('pointer', t.name) { p.deference }
    end

    # built from Ruby objects
    def whole_plain(t, v, x)
      style = MC.choose(3, :style)
      MC.prune if t.is_a?(Model::Union)
      plain = Values.plain(t, v, style)
      y = MC.choose(2, :how) == 0 ? x.class.new(plain) : Typelib.from_ruby(plain, x.class)
      MC.check(y.class.equal?(x.class) && t.same?(t.read(y.zone_address), v), 'from-ruby', "#{t.name}: #{t.read(y.zone_address).inspect} from #{plain.inspect}")
    end

    # iteration, and what Enumerable makes of it
    def whole_each(t, v, x)
      case t
      when Model::Compound
        MC.check([x.each_field, x.raw_each_field].all? { |e| e.to_a.map(&:first).sort == t.fields.map(&:first).sort }, 'each-field', "#{t.name}: #{x.each_field.to_a}")
        x.each_field { |n, y| Values.shows(t.field(n)[2], y, v[n], "#{t.name} each_field #{n}") }
        x.raw_each_field { |n, y| Values.shows(t.field(n)[2], y, v[n], "#{t.name} raw_each_field #{n}") }
      when Model::Arr, Model::Vec
        e = t.element
        n = v.size
        x.each_with_index { |y, i| Values.shows(e, y, v[i], "#{t.name} each_with_index #{i}") }
        MC.check(x.to_a.size == n && x.count == n && x.entries.size == n && x.size == n && x.first(2).size == [n, 2].min, 'enumerable', t.name)
        x.reverse_each.with_index { |y, i| Values.shows(e, y, v[n - 1 - i], "#{t.name} reverse_each #{i}") }
        x.raw_each.with_index { |y, i| MC.check(y.kind_of?(Typelib::Type), 'raw-each', "#{t.name}: #{y.class}"); Values.shows(e, y, v[i], "#{t.name} raw_each #{i}") }
        (0..n).each do |i|
          (0..n - i).each do |c|
            got = x[i, c]
            MC.check(got.size == c, 'range', "#{t.name}[#{i}, #{c}] has #{got.size} elements")
            c.times { |j| Values.shows(e, got[j], v[i + j], "#{t.name}[#{i}, #{c}][#{j}]") }
          end
        end
        if t.is_a?(Model::Vec)
          MC.check(x.empty? == v.empty? && x.length == n, 'size', t.name)
        else MC.check(x.class.length == n, 'size', t.name)
        end
      else MC.prune
      end
    end

    # frozen values are not changed, in any way, through any of their components
    def frozen
      t = MC.pick(Whole::FAMILY, :type)
      v = MC.pick(Values.some(t, 3), :value)
      MC.prune if t.is_a?(Model::Vec) && v.empty?
      MC.unit
      x = Whole.make(t, v)
      a = x.zone_address
      path, st = MC.pick(Values.slots(t, v), :component)
      warm = MC.choose(3, :warm)
      Values.slots(t, v).each { |p, _| p.inject(x) { |h, k| h.raw_get(k) } } if warm == 1
      Values.shows(t, x, v, t.name) if warm == 2
      MC.check(!x.frozen?, 'frozen', t.name)
      MC.check(x.freeze.equal?(x) && x.frozen?, 'frozen', t.name)
      y = path.inject(x) { |h, k| h.raw_get(k) }
      MC.check(y.frozen?, 'frozen', "#{t.name} at #{path.inspect} is not frozen")
      sv = Values.dig(v, path)
      w = st.values.find { |o| !st.same?(o, sv) }
      w ||= st.values[0]
      changes = Whole.changes(st, y, w)
      name, change = MC.pick(changes, :change)
      MC.refused('frozen-changed', "#{t.name} at #{path.inspect}: #{name}") { change.call }
      got = t.read(a)
      MC.check(x.zone_address == a && t.same?(got, v), 'frozen-changed', "#{t.name} at #{path.inspect}: #{name} changed it to #{got.inspect}")
      Values.shows(t, x, v, "frozen #{t.name}") unless name =~ /^\w+=$/
      d = x.dup
      MC.check(!d.frozen? && t.same?(t.read(d.zone_address), v), 'frozen-dup', t.name) unless name =~ /^\w+=$/
      Typelib.copy(d, Whole.make(t, t.values[-1])) unless name =~ /^\w+=$/
      MC.step
      MC.state("#{t.name} #{path} #{name}")
    end

    # accessors find all components of a type, in any value
    def accessors
      t = MC.pick(Whole::FAMILY, :type)
      v = MC.pick(Values.some(t, 6), :value)
      MC.unit
      x = Whole.make(t, v)
      all = Values.slots(t, v)
      wanted = MC.pick(all.map { |_, s| s.name }.uniq + ['/nothing'], :wanted)
      MC.prune if wanted == '/int8_t' && Whole.strings?(t)    # what strings are made of
      getter = MC.pick([[:raw_get, :raw_each], [:get, :each]], :getter)
      MC.prune if getter[0] == :get && (Whole.strings?(t) || [Model::Num, Model::Enum].include?(all.find { |_, s| s.name == wanted }&.at(1).class))
      acc = Typelib::Accessor.find_in_type(x.class, *getter) { |k| k.name == wanted }
      want = all.select { |_, s| s.name == wanted }
      2.times do |again|
        got = acc.each(x).to_a
        left = want.dup
        got.each do |y|
          i = left.index { |p, _| Values.locate(t, x.zone_address, p)[1] == y.zone_address }
          MC.check(i, 'accessor', "#{t.name}: something else than a #{wanted}, or twice")
          p, s = left.delete_at(i)
          Values.shows(s, y, Values.dig(v, p), "#{t.name} at #{p.inspect} through an accessor")
        end
        MC.check(left.empty?, 'accessor', "#{t.name}: #{left.map(&:first).inspect} of type #{wanted} are missing")
      end
      # paths, on their own
      path, st = MC.pick(all, :path)
      made = Typelib::Path.new([])
      up = MC.choose(2, :unshift) == 1
      up ? path.reverse.each { |k| made.unshift_call(:raw_get, k) } : path.each { |k| made.push_call(:raw_get, k) }
      got = made.resolve(x)
      MC.check(made.size == path.size && got.size == 1 && got[0].zone_address == Values.locate(t, x.zone_address, path)[1], 'path', "#{t.name}: #{path.inspect}")
      copy = made.dup
      copy.push_call(:itself)
      MC.check(copy.size == path.size + 1 && made.size == path.size && (made + copy).size == 2 * path.size + 1, 'path', 'copy')
      # what contains what
      all.each { |p, s| MC.check(x.class.contains?(Whole.type(s)), 'contains', "#{t.name} and #{s.name}") }
      Whole::MORE.each { |s| MC.check(all.any? { |_, o| o.name == s.name } || Model.dependencies(t).any? { |o| o.name == s.name } || !x.class.contains?(Whole.type(s)), 'contains', "#{t.name} and #{s.name}") }
      MC.step
      MC.state("#{t.name} #{wanted} #{path}")
    end
  end
end
