# C33: values converted to and from Ruby objects
module Conversions
  MyTime = Struct.new(:sec, :usec)
  Other = Struct.new(:text)
  Typelib.convert_to_ruby('/conv/Time', MyTime) { |v| MyTime.new(v.sec, v.usec) }
  Typelib.convert_from_ruby(MyTime, '/conv/Time') { |v, t| r = t.new; r.sec = v.sec; r.usec = v.usec; r }
  Typelib.convert_to_ruby('/conv/Flag') { |v| v.x != 0 }
  [TrueClass, FalseClass].each { |k| Typelib.convert_from_ruby(k, '/conv/Flag') { |v, t| r = t.new; r.x = v ? 1 : 0; r } }
  # what Ruby objects of the model look like
  KINDS = { 't' => :time, 's' => :string, 'b' => :bool, 'n' => :int, 'list' => :times, 'arr' => :times, 'v' => :strings, 'inner' => :inner, 'bv' => :bools, 'ba' => :bools, 'fl' => :flag }
  class << self
    def registry
      @registry ||= begin
        r = Typelib::Registry.new
        Typelib::Registry.add_standard_cxx_types(r)
        r.create_compound('/conv/Time') { |c| c.sec = '/int32_t'; c.usec = '/int32_t' }
        r.create_container('/std/vector', '/conv/Time')
        r.create_container('/std/vector', '/std/string')
        r.create_container('/std/vector', '/bool')
        r.create_compound('/conv/Flag') { |c| c.x = '/int32_t' }
        r.create_compound('/conv/Inner') { |c| c.t = '/conv/Time'; c.k = '/int32_t' }
        r.create_compound('/conv/Outer') { |c| c.t = '/conv/Time'; c.s = '/std/string'; c.b = '/bool'; c.n = '/int32_t'; c.list = '/std/vector</conv/Time>'; c.arr = '/conv/Time[2]'; c.v = '/std/vector</std/string>'; c.bv = '/std/vector</bool>'; c.ba = '/bool[2]'; c.inner = '/conv/Inner'; c.fl = '/conv/Flag' }
        r
      end
    end
    def type; registry.get('/conv/Outer') end
    # contents, as texts, numbers, arrays and hashes
    A = { 't' => [1, 2], 's' => 'abc', 'b' => true, 'n' => 5, 'list' => [[1, 1], [2, 2]], 'arr' => [[3, 3], [4, 4]], 'v' => %w{x yy}, 'bv' => [true, false, true], 'ba' => [true, false], 'inner' => { 't' => [7, 8], 'k' => 9 } , 'fl' => true }
    B = { 't' => [10, 20], 's' => 'z' * 30, 'b' => false, 'n' => -1, 'list' => [], 'arr' => [[0, 0], [9, 9]], 'v' => [''], 'bv' => [], 'ba' => [false, true], 'inner' => { 't' => [70, 80], 'k' => 90 } , 'fl' => false }
    ZERO = { 't' => [0, 0], 's' => '', 'b' => false, 'n' => 0, 'list' => [], 'arr' => [[0, 0], [0, 0]], 'v' => [], 'bv' => [], 'ba' => [false, false], 'inner' => { 't' => [0, 0], 'k' => 0 } , 'fl' => false }
    def contents(i) Marshal.load(Marshal.dump([A, B, ZERO][i])) end
    def bytes(c)
      s = -> (x) { [x.bytesize].pack('Q') + x }
      c['t'].pack('l2') + s[c['s']] + [c['b'] ? 1 : 0].pack('C') + [c['n']].pack('l') + [c['list'].size].pack('Q') + c['list'].flatten.pack('l*') +
        c['arr'].flatten.pack('l4') + [c['v'].size].pack('Q') + c['v'].map(&s).join + [c['bv'].size].pack('Q') + (c['bv'] + c['ba']).map { |z| z ? 1 : 0 }.pack('C*') + c['inner']['t'].pack('l2') + [c['inner']['k']].pack('l') + [c['fl'] ? 1 : 0].pack('l')
    end
    def make(c) type.from_buffer(bytes(c), merge_skip_copy: false) end
    # what is in memory
    def memory(x)
      a = x.zone_address
      o = -> (n) { a + x.class.offset_of(n) }
      str = -> (p) { q, n = MC.peek(p, 16).unpack('QQ'); MC.peek(q, n) }
      vec = -> (p, s) { b, e = MC.peek(p, 16).unpack('QQ'); (0...(e - b) / s).map { |i| b + i * s } }
      { 't' => MC.peek(o['t'], 8).unpack('l2'), 's' => str[o['s']], 'b' => MC.peek(o['b'], 1) != "\0", 'n' => MC.peek(o['n'], 4).unpack1('l'),
        'list' => vec[o['list'], 8].map { |p| MC.peek(p, 8).unpack('l2') }, 'arr' => MC.peek(o['arr'], 16).unpack('l4').each_slice(2).to_a, 'v' => vec[o['v'], 32].map { |p| str[p] }, 'bv' => vec[o['bv'], 1].map { |p| MC.peek(p, 1) != "\0" }, 'ba' => MC.peek(o['ba'], 2).bytes.map { |z| z != 0 },
        'inner' => { 't' => MC.peek(o['inner'], 8).unpack('l2'), 'k' => MC.peek(o['inner'] + 8, 4).unpack1('l') }, 'fl' => MC.peek(o['fl'], 4).unpack1('l') != 0 }
    end
    def object(f, c)
      case KINDS[f]
      when :time then MyTime.new(*c)
      when :times then c.map { |t| MyTime.new(*t) }
      when :strings then c.map(&:dup)
      when :bools then c.dup
      when :inner then { 't' => MyTime.new(*c['t']), 'k' => c['k'] }
      when :string then c.dup
      else c
      end
    end
    # the content that an object stands for
    def content(f, o)
      case KINDS[f]
      when :time then Class === o && o || MyTime === o ? [o.sec, o.usec] : [:not_a_time, o.inspect]
      when :times then o.map { |t| content('t', t) }
      when :strings then o.map { |s| s.to_str.b }
      when :bools then o.to_a == o.each.to_a && o.to_a == (0...o.size).map { |i| o[i] } ? o.to_a : [:differ, o.to_a, (0...o.size).map { |i| o[i] }]
      when :inner then { 't' => content('t', o.t), 'k' => o.k }
      when :string then String === o ? o.b : [:not_a_string, o.inspect]
      else o
      end
    end
    # changes an object in place, and the content in the same way
    def mutate(f, o, c)
      case KINDS[f]
      when :time then o.sec += 100; [c[0] + 100, c[1]]
      when :times
        if f == 'list' && c.size != 1 then o << MyTime.new(5, 6); c + [[5, 6]]
        else o[0].usec = 77; [[c[0][0], 77]] + c.drop(1)
        end
      when :strings
        if c.empty? then o << 'new'; ['new']
        else o[0] << 'more'; [c[0] + 'more'] + c.drop(1)
        end
      when :bools
        if f == 'bv' && c.size != 1 then o << true; c + [true]
        else o[0] = !c[0]; [!c[0]] + c.drop(1)
        end
      when :string then o << 'tail'; c + 'tail'
      when :inner then o.t.sec = 55; { 't' => [55, c['t'][1]], 'k' => c['k'] }
      end
    end
  end
end

module Bodies
  class << self
    CONVERTED = %w{t s b list arr v inner bv ba fl}
    OBSERVE = %i{bytes equal simple copy assigned dup print reread}
    # histories of reading, changing and loading
    def converted
      cx = Conversions
      x = cx.make(want = cx.contents(0))
      MC.check(cx.memory(x) == want, 'harness', cx.memory(x).inspect)
      handles, stale, trace = {}, [], []
      length = MC.thorough? ? 4 : 3
      finish = false
      length.times do |i|
        op = MC.pick(%i{read mutate assign assign_other load_copy load_buffer zero flush dup stale set finish}, :op)
        f = nil
        case op
        when :finish then finish = true
        when :read, :mutate, :assign
          f = MC.pick(i > 1 && !MC.thorough? ? %w{t s list inner fl} : CONVERTED, :field)
        end
        MC.unit if i == 0
        break if finish
        trace << [op, f].compact.join(' ')
        case op
        when :read, :mutate
          o = x.send(f)
          MC.check(handles[f].nil? || o.equal?(handles[f]), 'identity', "#{trace}: another object than before")
          got = cx.content(f, o)
          MC.check(got == want[f], "read-#{f}", "#{trace}: #{got.inspect} instead of #{want[f].inspect}")
          handles[f] = o unless %w{b bv ba}.include?(f)
          if op == :mutate
            MC.prune if f == 'b' || f == 'fl'
            want[f] = cx.mutate(f, o, want[f])
          end
        when :assign
          MC.prune if %w{inner bv ba}.include?(f)
          c = cx.contents(1)[f]
          o = cx.object(f, c)
          x.send("#{f}=", o)
          want[f] = c
          stale << [f, handles[f]] if handles[f]
          handles[f] = o
          handles.delete(f) if f == 'b'
        when :assign_other      # a value, not an object
          o = cx.make(cx.contents(1))
          x.inner = o.inner
          want['inner'] = cx.contents(1)['inner']
          handles.delete('inner')
        when :load_copy, :load_buffer, :zero
          stale += handles.to_a
          handles = {}
          c = op == :zero ? 2 : 1
          case op
          when :zero then x.zero!
          when :load_copy then Typelib.copy(x, cx.make(cx.contents(c)))
          when :load_buffer then x.from_buffer(cx.bytes(cx.contents(c)), merge_skip_copy: false)
          end
          want = cx.contents(c)
        when :flush then Typelib.to_ruby(x)
          MC.check(cx.memory(x) == want, 'flush', "#{trace}: the memory holds #{cx.memory(x)} instead of #{want}")
        when :dup
          y = x.dup
          MC.check(cx.memory(y) == want, 'dup', "#{trace}: the copy holds #{cx.memory(y)} instead of #{want}")
          y.t.sec = 1234; y.s << 'copy'
          Typelib.to_ruby(y)
          MC.check(cx.memory(y)['t'][0] == 1234 && cx.memory(y)['s'] == want['s'] + 'copy', 'dup', "#{trace}: changes of the copy are lost")
        when :stale
          MC.prune if stale.empty?
          sf, o = stale.last
          MC.prune if %w{inner b bv ba fl}.include?(sf)
          cx.mutate(sf, o, cx.content(sf, o))
        when :set
          x.n = 42; want['n'] = 42
        end
        MC.step
      end
      how = MC.pick(OBSERVE, :observe)
      trace << how
      y = nil
      case how
      when :bytes then MC.check(x.to_byte_array(merge_skip_copy: false) == cx.bytes(want), 'bytes', "#{trace}: #{x.to_byte_array(merge_skip_copy: false).inspect} instead of #{cx.bytes(want).inspect}")
      when :equal then MC.check(x == cx.make(want) && cx.make(want) == x, 'equal', "#{trace}: not equal to #{want}"); w = cx.make(want); w.t.sec += 1; MC.check(x != w && w != x, 'equal', "#{trace}: equal to something else")
      when :simple
        t = -> (c) { { 'sec' => c[0], 'usec' => c[1] } }
        s = x.to_simple_value
        e = { 't' => t[want['t']], 's' => want['s'], 'n' => want['n'], 'list' => want['list'].map(&t), 'arr' => want['arr'].map(&t), 'v' => want['v'], 'inner' => { 't' => t[want['inner']['t']], 'k' => want['inner']['k'] } }
        MC.check(s.reject { |k, _| k =~ /^b|^fl/ } == e, 'simple', "#{trace}: #{s} instead of #{e}")
      when :copy then y = Typelib.copy(cx.make(cx.contents(0)), x)
      when :assigned
        k = (cx.registry.include?('/conv/Holder') ? cx.registry.get('/conv/Holder') : cx.registry.create_compound('/conv/Holder') { |c| c.o = '/conv/Outer' }).zero
        k.o = x
        Typelib.to_ruby(k)
        y = k.raw_get('o')
      when :dup then y = x.dup
      when :print then PP.pp(x, +''); x.to_s
      when :reread then CONVERTED.each { |n| got = cx.content(n, x.send(n)); MC.check(got == want[n], "read-#{n}", "#{trace}: #{got.inspect} instead of #{want[n].inspect}") }
      end
      if y
        MC.check(cx.memory(y) == want, 'copied', "#{trace}: the copy holds #{cx.memory(y)} instead of #{want}")
        CONVERTED.each { |n| got = cx.content(n, y.send(n)); MC.check(got == want[n], "read-#{n}", "#{trace}: #{got.inspect} instead of #{want[n].inspect} in the copy") }
      end
      MC.check(how == :reread || cx.memory(x) == want, 'flush', "#{trace}: the memory holds #{cx.memory(x)} instead of #{want}")
      handles.each { |n, o| MC.check(x.send(n).equal?(o), 'identity', "#{trace}: another object than before for #{n}") }
      MC.step
      MC.state(want.inspect + handles.keys.sort.inspect)
    end

    KEYS = ['/sp/A', '/sp/A[]', '/std/vector<>', '/std/vector</sp/A>', %r{^/sp/}, /A\[3\]$/, '/sp/E', '/sp/none', /B/]
    # what is registered applies to the types that it names, and to no others
    def specialized
      count = MC.choose(MC.thorough? ? 3 : 2, :count) + 1
      list = Array.new(count) do |i|
        what = MC.pick(%i{values model to_ruby from_ruby}, :what)
        MC.unit if i == 0
        [what, MC.pick(KEYS, :key), MC.choose(3, :if)]
      end
      warm = MC.choose(2, :warm)
      known = [Typelib.value_specializations, Typelib.type_specializations, Typelib.convertions_from_ruby, Typelib.convertions_to_ruby]
      sets = known.flat_map { |k| [k.from_typename, k.from_array_basename, k.from_container_basename, k.from_regexp] }
      before = sets.map { |h| h.transform_values(&:dup) }
      begin
        list.each_with_index do |(what, key, cond), i|
          o = cond == 0 ? {} : { if: cond == 1 ? -> (t) { false } : -> (t) { t.size > 4 } }
          case what
          when :values then Typelib.specialize(key, o) { define_method("mark#{i}") { [i, self] } }
          when :model then Typelib.specialize_model(key, o) { define_method("model#{i}") { [i, self] } }
          when :to_ruby
            if i == 0 then Typelib.convert_to_ruby(key, Conversions::Other, o) { |v| Conversions::Other.new("#{i} #{v.class.name}") }
            else Typelib.convert_to_ruby(key, o) { |v| Conversions::Other.new("#{i} #{v.class.name}") }
            end
          when :from_ruby then Typelib.convert_from_ruby(Conversions::Other, key, o) { |v, t| r = t.new; MC.poke(r.zone_address, i.chr) unless t <= Typelib::ContainerType; r.instance_variable_set(:@from, "#{i} #{v.text}"); r }
          end
        end
        r = Typelib::Registry.new
        r.create_numeric('/i', 4, :sint)
        r.create_compound('/sp/A') { |c| c.x = '/i' }
        r.create_array('/sp/A', 3)
        r.create_container('/std/vector', '/sp/A')
        r.create_enum('/sp/E') { |e| e.X }
        r.create_compound('/sp/B') { |c| c.a = '/sp/A'; c.y = '/i' }
        names = ['/i', '/sp/A', '/sp/A[3]', '/std/vector</sp/A>', '/sp/E', '/sp/B']
        names = names.reverse if warm == 1
        names.each do |n|
          t = r.get(n)
          size = { '/i' => 4, '/sp/A' => 4, '/sp/A[3]' => 12, '/std/vector</sp/A>' => 24, '/sp/E' => 4, '/sp/B' => 8 }[n]
          apply = list.each_with_index.select do |(what, key, cond), i|
            hit = key.is_a?(Regexp) ? key === n : key == n || key == '/sp/A[]' && n == '/sp/A[3]' || key == '/std/vector<>' && n == '/std/vector</sp/A>'
            hit && (cond == 0 || cond == 2 && size > 4)
          end
          rank = -> (((_, key, _), i)) { [key.is_a?(Regexp) ? 2 : key == n ? 1 : 0, key.is_a?(Regexp) ? list.index { |_, k, _| k == key } : 0, i] }
          apply = apply.sort_by(&rank)
          text = "#{list.inspect}: #{n}"
          x = t.zero
          list.each_with_index do |(what, _, _), i|
            on = apply.any? { |_, j| j == i }
            case what
            when :values
              MC.check(x.respond_to?("mark#{i}") == on && (!on || x.send("mark#{i}") == [i, x]), 'values', text)
              MC.check(!t.respond_to?("mark#{i}"), 'values', text)
            when :model then MC.check(t.respond_to?("model#{i}") == on && (!on || t.send("model#{i}")[1].equal?(t)), 'model', text)
            end
          end
          conv = apply.select { |(what, _, _), _| what == :to_ruby }.first
          converted = conv || n =~ /\[|vector/ && MC.choose(1, :x) == 1
          got = Typelib.to_ruby(x)
          if conv
            MC.check(Conversions::Other === got && got.text == "#{conv[1]} #{n}", 'to-ruby', "#{text} is converted to #{got.inspect}")
            MC.check(t.convertion_to_ruby && t.needs_convertion_to_ruby? && t.contains_converted_types?, 'to-ruby', "#{text}: flags")
          else
            MC.check(!(Conversions::Other === got), 'to-ruby', "#{text} is converted to #{got.inspect}")
          end
          conv = apply.select { |(what, _, _), _| what == :from_ruby }.last
          if conv
            got = Typelib.from_ruby(Conversions::Other.new('q'), t)
            MC.check(got.class.equal?(t) && got.instance_variable_get(:@from) == "#{conv[1]} q", 'from-ruby', "#{text} is converted from #{got.inspect}")
          else
            MC.refused('from-ruby', text) { Typelib.from_ruby(Conversions::Other.new('q'), t) }
          end
          MC.step
        end
        MC.state(list.inspect)
      ensure
        sets.zip(before) { |h, old| h.replace(old) }
      end
    end
  end
end
