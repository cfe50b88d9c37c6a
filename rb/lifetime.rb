# C30: what the garbage collector may and has to release
module Lifetime
  include Histories
  class << self
    # runs a block on a stack that is gone afterwards: nothing but what it
    # returns is referred to from there
    def aside(&block) Thread.new(&block).value end
    def collect
      aside { 200.times { 'x' * 100; Object.new; [] } }
      GC.start
      aside { H.make(H::HOLD, H.samples(H::HOLD)[2]); nil }
      GC.start
    end
    H = Histories

    # memory that is accounted for: C++ allocations and memory zones
    def used
      MC.evict
      2.times { GC.start }
      [MC.live, Typelib::MemoryZone.table_size]
    end

    # operations that are complete histories: name => block given a value and its model
    def histories(t, v)
      h = {}
      all = Values.slots(t, v).drop(1).map(&:first)
      h[:nothing] = -> (x) { }
      h[:read] = -> (x) { all.each { |p| p.inject(x) { |o, k| o.raw_get(k) } } }
      h[:read_converted] = -> (x) { x.to_simple_value; x.to_ruby; x.kind_of?(Typelib::CompoundType) ? x.each_field { |n, f| f } : x.each { |e| e } }
      h[:dup] = -> (x) { x.dup.dup }
      h[:copy] = -> (x) { H.samples(t).each { |w| Typelib.copy(x, H.make(t, w)) } }
      h[:load] = -> (x) { H.samples(t).each { |w| x.from_buffer(t.pack(w), merge_skip_copy: false, remove_trailing_skips: false) } }
      h[:dump] = -> (x) { x.to_byte_array; x.class.wrap(x.to_byte_array) }
      h[:compare] = -> (x) { x == H.make(t, v); x.memory_eql?(x.dup) }
      h[:swap] = -> (x) { x.endian_swap.endian_swap! } if Values.slots(t, v).none? { |_, s| s.is_a?(Model::Vec) || s.is_a?(Model::Str) }
      h[:zero] = -> (x) { x.zero! }
      h[:pointer] = -> (x) { x.to_ptr.deference; x.to_ptr.to_ptr.deference.deference }
      h[:cast] = -> (x) { x.cast(x.class) }
      h[:csv] = -> (x) { x.class.to_csv; x.to_csv unless t.is_a?(Model::Vec) || t.is_a?(Model::Str) || t.is_a?(Model::Compound) }
      h[:freeze] = -> (x) { x.dup.freeze }
      if t.is_a?(Model::Vec)
        et = t.element
        es = H.samples(et)
        h[:push] = -> (x) { 5.times { |i| x.push(H.make(et, es[i % 3])) } }
        h[:push_erase] = -> (x) { es.each { |e| x << H.make(et, e) }; es.each { |e| x.erase(H.make(et, e)) } }
        h[:set] = -> (x) { v.size.times { |i| x[i] = H.make(et, es[i % 3]); x[i] = H.make(et, es[(i + 1) % 3]) } }
        h[:delete] = -> (x) { i = 0; x.delete_if { |_| (i += 1).odd? } }
        h[:clear] = -> (x) { x.clear; x.push(H.make(et, es[2])); x.clear }
        h[:concat] = -> (x) { x.concat(x) unless et.is_a?(Model::Enum) }
        h[:chunk] = -> (x) { x[0, v.size] }
        h[:of_size] = -> (x) { x.class.of_size(3, H.make(et, es[0])) }
        h[:from_ruby] = -> (x) { Typelib.from_ruby(es.map { |e| H.make(et, e) }, x.class) }
      end
      if t.is_a?(Model::Compound)
        h[:fields] = -> (x) { H.samples(t).each { |w| t.fields.each { |n, _, ft| x[n] = H.make(ft, w[n]) } } }
        h[:hash] = -> (x) { x.class.new(t.fields.map { |n, _, ft| [n.to_sym, H.make(ft, v[n])] }.to_h) }
      end
      h
    end
  end
end

module Bodies
  class << self
    # objects keep alive what they show
    def alive
      l, h = Lifetime, Histories
      t = MC.pick(h::NESTED + [h::BARE[0], h::BARE[3], h::BARE[4], h::BARE[5], h::STR, h::PAD, h::NEST], :type)
      MC.unit
      v = h.samples(t)[MC.choose(2, :value) * 2]
      path, st = MC.pick(Values.slots(t, v), :component)
      how = MC.pick(%i{raw symbol each dup pointer cast}, :how)
      own = MC.choose(2, :registry)       # its registry is not referred to by anything else
      w = Values.dig(v, path)
      y = l.aside do
        if own == 1
          reg = Model.registry(t)
          x = reg.get(t.name).from_buffer(t.pack(v), merge_skip_copy: false, remove_trailing_skips: false)
        else x = h.make(t, v)
        end
        y = path.inject(x) do |o, k|
          case how
          when :symbol then k.is_a?(String) ? (r = o.get(k.to_sym); r.kind_of?(Typelib::Type) ? r : o.raw_get(k)) : o.raw_get(k)
          when :each then k.is_a?(String) ? o.raw_get(k) : o.raw_each.to_a[k]
          else o.raw_get(k)
          end
        end
        case how
        when :dup then y.dup
        when :pointer then y.to_ptr
        when :cast then y.cast(y.class)
        else y
        end
      end
      l.collect
      y = l.aside { y.deference } if how == :pointer
      where = "#{t.name} #{v.inspect}: component #{path.inspect} (#{how})"
      MC.check(!y.invalidated?, 'invalidated', "#{where} was invalidated by the garbage collector")
      Values.follows(st, y, w, where)
      l.collect
      got = y.to_byte_array(merge_skip_copy: false, remove_trailing_skips: false)
      MC.check(got.b == st.pack(w).b, 'alive-bytes', "#{where}: gives #{got.inspect}")
      # and it can still be changed
      if st.is_a?(Model::Vec) && !st.element.is_a?(Model::Enum)
        e = h.samples(st.element)[1]
        y.push(Typelib.from_ruby(e, y.class.deference))
        w += [e]
      else
        w = h.samples(st)[1]
        y.from_buffer(st.pack(w), merge_skip_copy: false, remove_trailing_skips: false)
      end
      l.collect
      Values.follows(st, y, w, where + ', changed')
      MC.step
      MC.state(where)
    end

    # what nothing refers to anymore is released
    def released
      l, h = Lifetime, Histories
      t = MC.pick(h::NESTED + h::BARE + [h::PAD], :type)
      MC.unit
      v = h.samples(t)[MC.choose(2, :value) * 2]
      names = l.histories(t, v).keys
      first = MC.pick(names, :first)
      second = MC.thorough? ? MC.pick(names, :second) : MC.choose(2, :warm) == 1 ? :read : nil
      own = MC.choose(2, :registry)
      # an application would be killed by a leak on every operation: count over several rounds
      round = -> do
        l.aside do
          x = if own == 1 then Model.registry(t).get(t.name).from_buffer(t.pack(v), merge_skip_copy: false, remove_trailing_skips: false)
          else h.make(t, v)
          end
          ops = l.histories(t, v)
          ops[second].call(x) if second
          ops[first].call(x) if own == 0 || !%i{push push_erase set clear fields hash copy of_size from_ruby compare}.include?(first)
          nil
        end
      end
      # the garbage collector may keep some objects because their addresses are
      # still somewhere on the stack: judged on a growth that continues
      grown = before = nil
      5.times do |section|
        (section == 0 ? 4 : 6).times { round.call }
        after = l.aside { l.used }
        if section > 0
          more = before.zip(after).map { |x, y| y - x >= 6 }
          grown = grown ? grown.zip(more).map { |x, y| x && y } : more
          break if grown.none?
        end
        before = after
      end
      MC.check(!grown[1], 'zones', "#{t.name} #{v.inspect}, #{second} #{first}: memory zones are not released")
      MC.check(!grown[0], 'leak', "#{t.name} #{v.inspect}, #{second} #{first}: C++ objects are not released")
      MC.step
      MC.state("#{t.name} #{first} #{second} #{own}")
    end

    # a wrapper is given out while the previous one for the same memory is dead but not released yet
    def sweep
      way = MC.choose(3, :way)
      MC.unit
      h = Histories
      t = Model::Arr.new(Model::PAD, 3000)
      @filler ||= (1..150000).map { Object.new }
      reg = Model.registry(t)
      x = reg.get(t.name).new
      x.zero!
      pad = reg.get('/Pad')
      a = x.zone_address
      ptr = pad.to_ptr
      get = case way
        when 0 then -> (i) { pad.from_address(a + i * 12) }
        when 1 then -> (i) { p = ptr.new; MC.poke(p.zone_address, [a + i * 12].pack('Q')); p.deference }
        when 2 then -> (i) { pad.from_address(a + i * 12).cast(pad) }
      end
      3.times do
        Lifetime.aside { 2999.times { |i| get.call(i) }; nil }
        GC.start(full_mark: true, immediate_sweep: false)
        ws = 2900.downto(2000).map { |i| get.call(i) }
        2.times { GC.start }
        ws.each_with_index { |w, i| MC.check(w.zone_address == a + (2900 - i) * 12 && w.b == 0, 'reused', "element #{i}") }
        MC.step
      end
      MC.state(way.to_s)
    end
  end
end
