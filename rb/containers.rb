# C29 (containers) and C30: sequences of operations on values that hold
# containers, against plain Ruby arrays, with the objects obtained on the way
module Histories
  include Model
  Model.constants.each { |c| const_set(c, Model.const_get(c)) }
  ITEM = Model.struct('/Item', ['id', I16], ['v', Vec.new(I32)])
  HOLD = Model.struct('/Hold', ['k', I8], ['a', Arr.new(Vec.new(I16), 2)], ['n', Vec.new(ITEM)])
  BARE = [Vec.new(I16), Vec.new(F64), Vec.new(COLOR), Vec.new(PAD), Vec.new(Arr.new(I16, 3)), Vec.new(STR), STR]
  NESTED = [Vec.new(Vec.new(I32)), Vec.new(ITEM), HOLD, Vec.new(DYN)]

  class << self
    def reg(i = 0) (@regs ||= [nil, nil])[i] ||= Model.registry(*(BARE + NESTED + [NEST])) end
    def klass(t) reg.get(t.name) end
    def make(t, v) klass(t).from_buffer(t.pack(v), merge_skip_copy: false, remove_trailing_skips: false) end

    # distinct values of a type
    def samples(t)
      case t
      when Num then t.kind == :float ? [1.5, -2.0, 0.25] : [1, 2, 300 & ((1 << (8 * t.size - 1)) - 1)]
      when Enum then t.map.keys
      when Str then ['ab', '', 'a' * 40]
      when ITEM then [{ 'id' => 1, 'v' => [7, 8] }, { 'id' => 2, 'v' => [] }, { 'id' => 3, 'v' => [1, 2, 3, 4, 5] }]
      when HOLD then [{ 'k' => 1, 'a' => [[1], [2, 3]], 'n' => [samples(ITEM)[0], samples(ITEM)[2]] }, { 'k' => 2, 'a' => [[], [4]], 'n' => [] }, { 'k' => 3, 'a' => [[5, 6, 7], []], 'n' => samples(ITEM) }]
      when Compound then vs = t.values; [vs[0], vs[1], vs[-1]]
      when Arr then e = samples(t.element); [0, 1, 2].map { |s| Array.new(t.length) { |i| e[(i + s) % 3] } }
      when Vec then e = samples(t.element); [[e[0], e[1]], [], [e[2], e[0], e[1], e[2]]]
      end
    end

    def locate(t, a, path) Values.locate(t, a, path) end
    # memory of the containers on the way to a component
    def buffers(t, a, path)
      (0...path.size).map { |n| locate(t, a, path[0...n]) }.select { |ct, _| ct.is_a?(Vec) }.map { |_, ca| MC.peek(ca, 8) }
    end
    def dig?(t, v, path)
      path.each do |k|
        return false if v.is_a?(Array) && k >= v.size
        t = t.is_a?(Compound) ? t.field(k)[2] : t.element
        v = v[k]
      end
      true
    end
    # the containers of a value, from the outside in
    def containers(t, v) Values.slots(t, v).select { |_, s| s.is_a?(Vec) }.sort_by { |p, _| p.size } end
  end

  # A value, what it is supposed to hold, and the objects obtained from it
  class Machine
    attr_reader :t, :x, :v, :kept, :extra
    def initialize(t, v) @t, @v = t, v; @x = Histories.make(t, v); @kept = []; @where = t.name + ' ' + v.inspect end

    def walk(path, how = :raw)
      path.inject(x) do |h, k|
        case how
        when :raw then h.raw_get(k)
        when :symbol then k.is_a?(String) ? h.get(k.to_sym) : h.raw_get(k)
        when :each then k.is_a?(String) ? h.raw_get(k) : h.raw_each.to_a[k]
        when :converted then k.is_a?(String) ? h[k] : h[k]
        end
      end
    end
    def keep(path, how = :raw)
      w = walk(path, how)
      @kept << [path, w] if w.kind_of?(Typelib::Type) && @kept.none? { |_, o| o.equal?(w) }
    end
    def keep_all(how = :raw) Values.slots(t, v).drop(1).each { |p, _| keep(p, how) } end

    # runs an operation that has to leave the value nv
    def apply(name, path, nv)
      @where += " #{name}#{path.inspect}"; MC.log("#{name} #{path.inspect}")
      a = x.zone_address
      before = @kept.map { |p, w| [w.invalidated?, w.invalidated? ? nil : Histories.buffers(t, a, p)] }
      r = yield(walk(path))
      @v = Values.update(t, v, path, nv)
      got = t.read(a)
      MC.check(t.same?(got, v), 'value', "#{@where}: the memory holds #{got.inspect} instead of #{v.inspect}")
      check_kept(before)
      MC.step
      r
    end

    def check_kept(before)
      a = x.zone_address
      @kept.each_with_index do |(p, w), i|
        was, buffers = before[i]
        where = "#{@where}: object of #{p.inspect}"
        if w.invalidated?
          MC.count(:invalid)
          still = Histories.dig?(t, v, p) && !was && buffers == Histories.buffers(t, a, p)
          MC.check(!still, 'lost', "#{where} was invalidated although the component is where it was")
        else
          MC.check(!was, 'revived', "#{where} is valid again")
          MC.count(:valid)
          MC.check(Histories.dig?(t, v, p), 'gone-valid', "#{where} is still valid, the component is gone")
          ct, ca = Histories.locate(t, a, p)
          MC.check(w.zone_address == ca, 'elsewhere', "#{where} is still valid, at another place than the component")
        end
      end
    end

    # everything that is kept shows its component, or refuses
    def inspect_kept
      @kept.each do |p, w|
        where = "#{@where}: object of #{p.inspect}"
        if w.invalidated?
          st = Values.type_at(t, p)
          (@refused ||= []).include?(st) ? next : @refused << st      # one of each type
          Histories.refuses(w, st, where)
        else Values.follows(Values.type_at(t, p), w, Values.dig(v, p), where)
        end
      end
      Values.follows(t, x, v, @where)
    end
  end

  class << self
    # an invalidated object can neither be read nor written
    def refuses(w, st, where)
      k = st.is_a?(Compound) ? st.fields[0][0] : 0
      ops = { to_byte_array: -> { w.to_byte_array }, from_buffer: -> { w.from_buffer(st.pack(samples(st)[0])) }, dup: -> { w.dup },
              copy_to: -> { Typelib.copy(w, make(st, samples(st)[0])) }, copy_from: -> { Typelib.copy(make(st, samples(st)[0]), w) },
              :== => -> { w == make(st, samples(st)[0]) }, other_equal: -> { make(st, samples(st)[0]) == w },
              zero!: -> { w.zero! }, endian_swap: -> { w.endian_swap }, endian_swap!: -> { w.endian_swap! },
              memory_eql: -> { w.memory_eql?(make(st, samples(st)[0])) },  memory_eql_other: -> { make(st, samples(st)[0]).memory_eql?(w) }, to_csv: -> { w.to_csv }, to_simple_value: -> { w.to_simple_value } }
      case st
      when Num, Enum, Str then ops[:to_ruby] = -> { w.to_ruby }
      else
        ops[:get] = -> { w[k] }
        ops[:raw_get] = -> { w.raw_get(k) }
        ops[:set] = -> { w[k] = st.is_a?(Compound) ? make(st.fields[0][2], samples(st.fields[0][2])[0]) : make(st.element, samples(st.element)[0]) }
      end
      if st.is_a?(Vec) || st.is_a?(Str)
        ops.merge!(size: -> { w.size }, length: -> { w.length }, empty: -> { w.empty? }, clear: -> { w.clear }, each: -> { w.each { } }, raw_each: -> { w.raw_each { } }, delete_if: -> { w.delete_if { true } })
      end
      if st.is_a?(Vec)
        ops.merge!(push: -> { w.push(make(st.element, samples(st.element)[0])) }, erase: -> { w.erase(make(st.element, samples(st.element)[0])) })
      end
      if st.is_a?(Arr)
        ops.merge!(size: -> { w.size }, each: -> { w.each { } })
      end
      ops.each { |n, op| MC.refused("invalid-#{n}", "#{where} is invalid, #{n}", TypeError, &op) }
    end

    def char(e) e.is_a?(Integer) ? e.chr : e end
    # operations on the container at path; nil when they do not apply
    def operations(t, path, st, cv)
      et = st.is_a?(Str) ? I8 : st.element
      if st.is_a?(Str)
        # /std/string holds characters
        return { push: -> (m) { m.apply(:push, path, cv + 'z') { |h| h.push(122) } },
                 concat: -> (m) { m.apply(:concat, path, cv + 'xyz') { |h| h.concat('xyz') } },
                 shift_op: -> (m) { m.apply(:<<, path, cv + 'y') { |h| h << 121 } },
                 erase: -> (m) { MC.prune if cv.empty?; m.apply(:erase, path, cv[1..-1]) { |h| h.erase(cv.getbyte(0)) } },
                 delete_if: -> (m) { m.apply(:delete_if, path, cv.delete('a')) { |h| h.delete_if { |c| (c.is_a?(Integer) ? c : c.to_ruby) == 97 } } },
                 clear: -> (m) { m.apply(:clear, path, '') { |h| h.clear } } }
      end
      e = samples(et)
      copies = samples(st)
      i0 = cv.index { |w| et.same?(w, e[0]) }
      without = i0 ? cv[0...i0] + cv[i0 + 1..-1] : cv
      {
        push: -> (m) { m.apply(:push, path, cv + [e[1]]) { |h| h.push(make(et, e[1])) } },
        push2: -> (m) { m.apply(:push2, path, cv + [e[0], e[2]]) { |h| h.push(make(et, e[0]), make(et, e[2])) } },
        push_own: -> (m) { MC.prune if cv.empty?; m.apply(:push_own, path, cv + [cv[0]]) { |h| h << h.raw_get(0) } },
        concat: -> (m) { MC.prune if et.is_a?(Enum); m.apply(:concat, path, cv + copies[2]) { |h| h.concat(make(st, copies[2])) } },
        concat_own: -> (m) { MC.prune if et.is_a?(Enum); m.apply(:concat_own, path, cv + cv) { |h| h.concat(h) } },
        set: -> (m) { MC.prune if cv.empty?; m.apply(:set, path, [e[2]] + cv[1..-1]) { |h| h[0] = make(et, e[2]) } },
        set_raw: -> (m) { MC.prune if cv.empty?; m.apply(:set_raw, path, cv[0..-2] + [e[1]]) { |h| h.raw_set(cv.size - 1, make(et, e[1])) } },
        set_own: -> (m) { MC.prune if cv.size < 2; m.apply(:set_own, path, [cv[-1]] + cv[1..-1]) { |h| h.set(0, h.raw_get(cv.size - 1)) } },
        erase: -> (m) { m.apply(:erase, path, without) { |h| r = h.erase(make(et, e[0])); MC.check(r == !i0.nil?, 'erase-result', "erase returned #{r}") } },
        erase_own: -> (m) { MC.prune if cv.empty?; j = cv.index { |w| et.same?(w, cv[-1]) }; m.apply(:erase_own, path, cv[0...j] + cv[j + 1..-1]) { |h| h.erase(h.raw_get(cv.size - 1)) } },
        delete_even: -> (m) { m.apply(:delete_even, path, cv.each_with_index.reject { |_, i| i.even? }.map(&:first)) { |h| i = -1; h.delete_if { |_| (i += 1).even? } } },
        delete_equal: -> (m) do
          seen = []
          m.apply(:delete_equal, path, cv.reject { |w| et.same?(w, e[0]) }) do |h|
            i = -1
            h.delete_if { |el| i += 1; Values.shows(et, el, cv[i], "delete_if #{i}"); seen << el if el.kind_of?(Typelib::Type); et.same?(cv[i], e[0]) }
          end
          m.seen(seen)
        end,
        clear: -> (m) { m.apply(:clear, path, []) { |h| h.clear } },
        copy_shorter: -> (m) { m.apply(:copy_shorter, path, copies[1]) { |h| Typelib.copy(h, make(st, copies[1])) } },
        copy: -> (m) { m.apply(:copy, path, copies[0]) { |h| Typelib.copy(h, make(st, copies[0])) } },
        copy_longer: -> (m) { m.apply(:copy_longer, path, copies[2]) { |h| Typelib.copy(h, make(st, copies[2])) } },
        copy_own: -> (m) { m.apply(:copy_own, path, cv) { |h| Typelib.copy(h, h) } },
        load: -> (m) { m.apply(:load, path, copies[0]) { |h| h.from_buffer(st.pack(copies[0]), merge_skip_copy: false, remove_trailing_skips: false) } },
        load_longer: -> (m) { m.apply(:load_longer, path, copies[2]) { |h| h.from_buffer(st.pack(copies[2]), merge_skip_copy: false, remove_trailing_skips: false) } },
        zero: -> (m) { m.apply(:zero, path, []) { |h| h.zero! } }
      }
    end
  end
  class Machine
    # elements that were given to a block
    def seen(list)
      list.each do |w|
        next if w.invalidated?
        # has to be an object of the container itself, that follows its changes
        p, st = Values.slots(t, v).find { |pp, _| walk(pp).equal?(w) }
        MC.check(p, 'given-to-block', "#{@where}: an element given to the block is valid and is not an element of the container")
        @kept << [p, w] unless @kept.any? { |_, o| o.equal?(w) }
      end
    end
  end
end

module Bodies
  class << self
    # containers behave as arrays of their elements
    def containers
      t = MC.pick(Histories::BARE + Histories::NESTED, :type)
      v = MC.pick(Histories.samples(t), :value)
      depth = Histories::BARE.first == t || MC.thorough? ? 3 : 2
      m = Histories::Machine.new(t, v)
      depth.times do |d|
        cs = Values.slots(t, m.v).select { |p, s| s.is_a?(Model::Vec) || p.empty? && s.is_a?(Model::Str) }
        cs = [cs[0], cs[-1]].uniq if d > 0
        path, st = MC.pick(cs, :container)
        ops = Histories.operations(t, path, st, Values.dig(m.v, path))
        MC.pick(ops.values, :operation).call(m)
        MC.unit if d == 0
      end
      m.inspect_kept
      h = m.x
      cv = m.v
      if cv.is_a?(Array)
        MC.check(h.size == cv.size && h.length == cv.size && h.empty? == cv.empty?, 'size', "#{t.name}: size #{h.size}")
        (0..cv.size).each do |i|
          (0..cv.size - i).each do |n|
            c = h[i, n]
            got = t.read(c.zone_address)
            MC.check(t.same?(got, cv[i, n]), 'chunk', "#{t.name} #{cv.inspect}[#{i}, #{n}] gives #{got.inspect}")
          end
        end
      end
      MC.state("#{t.name} #{m.v}")
    end

    # some of the elements were looked at before the container changes
    def partial
      h = Histories
      t = MC.pick([h::BARE[3], h::BARE[4], h::BARE[5], *h::NESTED, h::BARE[0]], :type)
      path = t == h::HOLD ? ['n'] : []
      st = path.empty? ? t : t.field('n')[2]
      e = h.samples(st.element)
      n = MC.thorough? ? 5 : 4
      v = path.empty? ? Array.new(n) { |i| e[i % 3] } : h.samples(t)[0].merge('n' => Array.new(n) { |i| e[i % 3] })
      m = h::Machine.new(t, v)
      mask = MC.choose(1 << n, :looked_at)
      MC.unit
      how = MC.pick(%i{raw each}, :how)
      MC.prune if how == :each && mask != 0 && !path.empty?
      n.times { |i| m.keep(path + [i], how) if mask[i] == 1 }
      2.times do |round|
        cv = Values.dig(m.v, path)
        case MC.choose(round == 0 ? 6 : 4, :operation)
        when 0 then m.apply(:nothing, path, cv) { }
        when 1
          k = MC.choose(cv.size + 1, :size)
          m.apply("load #{k}", path, cv[0, k]) { |x| x.from_buffer(st.pack(cv[0, k]), merge_skip_copy: false, remove_trailing_skips: false) }
        when 2
          k = MC.choose(cv.size + 1, :size)
          m.apply("copy #{k}", path, cv[cv.size - k, k]) { |x| Typelib.copy(x, h.make(st, cv[cv.size - k, k])) }
        when 3
          MC.prune if cv.empty?
          w = MC.pick(e, :value)
          i = cv.index { |o| st.element.same?(o, w) }
          m.apply(:erase, path, i ? cv[0...i] + cv[i + 1..-1] : cv) { |x| x.erase(h.make(st.element, w)) }
        when 4
          keep = MC.choose(1 << n, :deleted)
          m.apply("delete #{keep}", path, cv.each_with_index.select { |_, i| keep[i] == 0 }.map(&:first)) { |x| i = -1; x.delete_if { keep[i += 1] == 1 } }
        when 5 then m.apply(:zero, path, []) { |x| x.zero! }
        end
      end
      m.inspect_kept
      MC.state("#{t.name} #{mask} #{m.v} #{m.kept.map { |p, w| [p, w.invalidated?] }}")
    end

    SMALL = %i{push set_raw erase delete_equal clear copy copy_longer}
    # objects that were obtained from a value follow it or refuse
    def wrappers
      t = MC.pick(Histories::NESTED + [Histories::BARE[0], Histories::BARE[3]], :type)
      deep = MC.choose(2, :alphabet)     # all the operations, or longer sequences of some of them
      v = Histories.samples(t)[deep == 1 && !MC.thorough? ? 2 : MC.choose(2, :value) * 2]
      m = Histories::Machine.new(t, v)
      (deep == 1 ? 3 : 2).times do |d|
        warm = deep == 1 && d == 2 && !MC.thorough? ? 0 : MC.choose(deep == 1 || d > 0 ? 2 : 5, :warm)
        case warm
        when 0 then m.keep_all
        when 1
        when 2 then m.keep_all(:symbol)
        when 3 then m.keep_all(:each)
        when 4      # a single one, the deepest
          p = Values.slots(t, m.v).drop(1).map(&:first).max_by(&:size)
          MC.prune unless p
          m.keep(p)
        end
        cs = Histories.containers(t, m.v)
        cs = d == 2 ? cs.first(1) : [cs[0], cs[-1]].uniq unless MC.thorough? && d < 2
        cs += [[[], t]] unless t.is_a?(Model::Vec)
        path, st = MC.pick(cs, :container)
        if st.is_a?(Model::Vec)
          ops = Histories.operations(t, path, st, Values.dig(m.v, path))
          ops = ops.select { |n, _| SMALL.include?(n) } if deep == 1 || d > 0
          MC.pick(ops.values, :operation).call(m)
        else
          w = Histories.samples(t)[MC.choose(3, :other)]
          case MC.choose(3, :whole)
          when 0 then m.apply(:copy, [], w) { |x| Typelib.copy(x, Histories.make(t, w)) }
          when 1 then m.apply(:load, [], w) { |x| x.from_buffer(t.pack(w), merge_skip_copy: false, remove_trailing_skips: false) }
          when 2 then m.apply(:fields, [], w) { |x| x.set_hash(t.fields.map { |n, _, ft| [n, Histories.make(ft, w[n])] }.to_h) }
          end
        end
        MC.unit if d == 0
      end
      m.inspect_kept
      MC.state("#{t.name} #{m.v} #{m.kept.map { |p, w| [p, w.invalidated?] }}")
    end
  end
end
