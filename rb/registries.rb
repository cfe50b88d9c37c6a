# C31: registries and types as seen from Ruby, against the C++ registry
# (MC::Twin, mc/twin.cc) on which the same operations are done in C++
module Registries
  KINDS = { Typelib::NumericType => :numeric, Typelib::EnumType => :enum, Typelib::CompoundType => :compound, Typelib::ArrayType => :array,
            Typelib::PointerType => :pointer, Typelib::ContainerType => :container, Typelib::OpaqueType => :opaque }
  MERGED = [
    [[:numeric, '/A', 4, :sint], [:compound, '/G', [['x', '/A', 0]], 0], [:alias, '/x/A2', '/A'], [:build, '/G[2]', 0], [:metadata, '/A', 'k', ['v2']], [:field_metadata, '/G', 'f', ['1', '2'], 'x']],
    [[:numeric, '/A', 8, :uint], [:enum, '/E2', [['P', 1]], 0]],
  ]
  TEXT = '<?xml version="1.0"?><typelib><numeric name="/A" category="sint" size="4"/><compound name="/T" size="12" source_id="here"><field name="i" type="/A" offset="4"/>' \
         '<metadata key="m"><![CDATA[v]]></metadata></compound><alias name="/TT" source="/T"/></typelib>'
  START = [[], [
    [:numeric, '/A', 4, :sint], [:enum, '/E', [['X', 0], ['Y', 5], ['Z', -2]], 0], [:compound, '/C', [['a', '/A', 0], ['e', '/E', 8]], 16], [:build, '/A[2]', 0],
    [:compound, '/n/D', [['c', '/C', 0], ['v', '/A[2]', 16]], 0], [:container, '/std/vector', '/A', 0], [:compound, '/L', [['a', '/A', 0], ['s', '/std/vector</A>', 8]], 0],
    [:alias, '/x/A2', '/A'], [:alias, '/C2', '/C'], [:opaque, '/O', 12], [:build, '/C*', 0], [:build, '/C[2]', 0]]]
  class << self
    def kind(t)
      return :null if t.null?
      KINDS.each { |c, k| return k if t < c }
      :other
    end

    def metadata(m) m.each.map { |k, v| [k, v.sort] }.to_h end

    # what the accessors of a type give
    def describe(t)
      k = kind(t)
      d = case k
          when :numeric then t.integer? ? (t.unsigned? ? :uint : :sint) : :float
          when :enum then t.keys
          when :compound then t.get_fields.map { |n, o, ft, m| [n, o, ft.name, metadata(m)] }
          when :array then [t.length, t.deference.name]
          when :pointer then t.deference.name
          when :container then [t.container_kind, t.deference.name]
          end
      consistent(t, k, d)
      [t.name, t.size, k, d, metadata(t.metadata)]
    end

    # the different ways to ask a type for the same thing
    def consistent(t, k, d)
      n = t.name
      MC.check(!!t.opaque? == (k == :opaque), 'opaque?', "#{n}: opaque? gives #{t.opaque?.inspect}")
      h, hl, hr, hm = t.to_h, t.to_h(layout_info: true), t.to_h(recursive: true), t.to_h_minimal
      [h, hl, hr, hm].each { |x| MC.check(x[:name] == n && x[:class] == t.superclass.name, 'to_h', "#{n}: to_h gives #{x.inspect}") }
      MC.check(hl[:size] == t.size, 'to_h', "#{n}: size in #{hl.inspect}")
      case k
      when :numeric
        MC.check(h[:size] == t.size && h[:integer] == (d != :float) && (d == :float || h[:unsigned] == (d == :uint)), 'to_h', "#{n}: #{h.inspect}")
      when :enum
        MC.check(h[:values].map { |v| [v[:name].to_s, v[:value]] }.sort == d.to_a.map { |s, v| [s.to_s, v] }.sort, 'to_h', "#{n}: #{h.inspect}")
        d.each { |s, v| MC.check(t.value_of(s) == v, 'value_of', "#{n}: #{s}") }
        d.values.uniq.each { |v| MC.check(d[t.name_of(v).to_s] == v, 'name_of', "#{n}: #{v} is #{t.name_of(v).inspect}") }
      when :compound
        MC.check(t.each_field.map { |f, ft| [f, ft.name] } == d.map { |f, _, ft, _| [f, ft] } && t.empty? == d.empty?, 'fields', "#{n}: each_field gives #{t.each_field.to_a.inspect}")
        d.each do |f, o, ft, m|
          MC.check(t.has_field?(f) && t.has_field?(f.to_sym) && t[f].name == ft && t[f].equal?(t.registry.get(ft)), 'fields', "#{n}.#{f}: has_field? #{t.has_field?(f)}, [] #{t[f].inspect}") if current?(t)
          MC.check(t.offset_of(f) == o, 'offset_of', "#{n}.#{f}: offset_of gives #{t.offset_of(f)} instead of #{o}")
          MC.check(metadata(t.field_metadata[f]) == m, 'field_metadata', "#{n}.#{f}: field_metadata gives #{metadata(t.field_metadata[f])} instead of #{m}")
        end
        MC.check(!t.has_field?('nothing'), 'fields', "#{n}: has a field called nothing")
        MC.check(h[:fields] == d.map { |f, _, ft, _| { name: f, type: t[f].to_h_minimal } } &&
                 hl[:fields].map { |f| [f[:name], f[:offset]] } == d.map { |f, o, *_| [f, o] } &&
                 hr[:fields] == d.map { |f, *_| { name: f, type: t[f].to_h(recursive: true) } }, 'to_h', "#{n}: #{h.inspect} #{hl.inspect} #{hr.inspect}")
      when :array, :container
        MC.check(h[:element] == t.deference.to_h_minimal && hr[:element] == t.deference.to_h(recursive: true) && (k == :container || h[:length] == d[0]), 'to_h', "#{n}: #{h.inspect}")
      end
    end
    def current?(t) t.registry.include?(t.name) && t.registry.get(t.name).equal?(t) end

    # what a registry gives for every name
    def view(reg)
      all = reg.each(with_aliases: true).to_a
      MC.check(reg.size == all.size, 'size', "size gives #{reg.size} for #{all.map(&:first).inspect}")
      types = reg.each.to_a
      plain = all.select { |n, t| n == t.name }.map(&:last)
      MC.check(types.size == plain.size && types.zip(plain).all? { |a, b| a.equal?(b) }, 'each', "each gives #{types.inspect}")
      MC.check(reg.map(&:name) == types.map(&:name), 'each', 'Enumerable')
      all.map do |n, t|
        MC.check(reg.include?(n) && reg.includes?(n), 'include?', "#{n} is listed and not included")
        MC.check(reg.get(n).equal?(t), 'identity', "get(#{n}) gives #{reg.get(n).inspect} #{reg.get(n).object_id}, and each #{t.inspect} #{t.object_id}")
        MC.check(t.registry.equal?(reg), 'registry', "#{n} belongs to another registry")
        tn, size, k, d, m = describe(t)
        source = reg.source_id_of(t)
        deps, rdeps, aliases = t.direct_dependencies.map(&:name).sort, reg.reverse_depends(t).map(&:name).sort, reg.aliases_of(t).sort
        MC.check(t.dependencies.map(&:name).sort == deps, 'dependencies', n)
        d = d.transform_keys(&:to_s) if k == :enum
        [n, [n != tn, tn, size, k, d, m, source, deps, rdeps, aliases]]
      end.to_h
    end

    def compare(reg, twin, what)
      want, got = twin.dump, view(reg)
      return if want == got && want.keys == got.keys
      MC.fail('names', "#{what}: the names are #{got.keys.inspect} instead of #{want.keys.inspect}") if want.keys != got.keys
      n = want.keys.find { |k| want[k] != got[k] }
      i = (0...10).find { |j| want[n][j] != got[n][j] }
      MC.fail(%w{alias name size category definition metadata source dependencies reverse-dependencies aliases}[i],
              "#{what}: #{n} is #{got[n].inspect} instead of #{want[n].inspect}")
    end

    # the operations, done on a registry and on its twin
    def operations
      ops = [
        [:numeric, '/A', 4, :sint], [:numeric, '/n/F', 8, :float],
        [:enum, '/E', [['X', 0], ['Y', 5], ['Z', -2]], 0],
        [:compound, '/C', [['a', '/A', 0], ['e', '/E', 8]], 16],
        [:compound, '/n/D', [['c', '/C', 0], ['v', '/A[2]', 16]], 0],
        [:compound, '/L', [['a', '/A', 0], ['s', '/std/vector</A>', 8]], 0],
        [:opaque, '/O', 12], [:null, '/N'],
        [:container, '/std/vector', '/A', 0], [:container, '/std/vector', '/C', 32],
        [:build, '/A[2]', 0], [:build, '/C[3]', 0], [:build, '/A*', 0],
        [:alias, '/x/A2', '/A'], [:alias, '/C2', '/C'], [:alias, '/V', '/std/vector</A>'],
        [:remove_alias, '/C2'], [:clear_aliases],
        [:remove, '/A'], [:remove, '/C'], [:remove, '/std/vector</A>'],
        [:merge, 0], [:merge, 1], [:load, 0], [:resize, [['/A', 8]]], [:resize, [['/O', 20], ['/C', 40]]],
        [:metadata, '/A', 'k', ['v1', "v\u00e9"]], [:field_metadata, '/C', 'doc', ['text'], 'a'],
      ]
    end

    # registries that are merged
    def pair(ops)
      reg, twin = Typelib::Registry.new, MC::Twin.new
      ops.each { |o| both(reg, twin, o) }
      [reg, twin]
    end

    # does an operation; gives [refused?, refused in C++?]
    def both(reg, twin, op)
      merged = op[0] == :merge && pair(MERGED[op[1]])
      w = case op[0]
          when :merge then twin.apply(:merge, merged[1])
          when :load then twin.apply(:load, TEXT)
          else twin.apply(*op)
          end
      want = w.is_a?(Array) && w[0] == :refused
      begin
        r = ruby(reg, op, merged && merged[0])
        got = false
      rescue ArgumentError, TypeError, RuntimeError => e
        got = true
      end
      MC.check(got == want, 'refusal', "#{op.inspect}: #{got ? "refused (#{e})" : 'accepted'}, although it is #{want ? "refused (#{w[1]})" : 'accepted'} by the C++ registry")
      if op[0] == :remove && !got
        MC.check(r.map(&:name).sort == w, 'removed', "#{op.inspect}: gives #{r.inspect} instead of #{w.inspect}")
      elsif %i{numeric enum compound opaque null container build}.include?(op[0]) && !got
        MC.check(Class === r && reg.get(r.name).equal?(r), 'created', "#{op.inspect}: gives #{r.inspect}")
      end
      MC.count(:refused) if got
      !got
    end

    def ruby(reg, op, merged)
      case op[0]
      when :numeric then reg.create_numeric(*op[1..-1])
      when :enum then reg.create_enum(op[1], op[3]) { |e| op[2].each { |s, v| e.add(s, v) } }
      when :compound
        reg.create_compound(op[1], op[3]) do |c|
          op[2].each_with_index { |(n, t, o), i| c.add(n, i == 0 || !reg.include?(t) ? t : reg.get(t), o) }
        end
      when :opaque then reg.create_opaque(*op[1..-1])
      when :null then reg.create_null(op[1])
      when :container then reg.create_container(op[1], op[3] == 0 ? op[2] : reg.get(op[2]), op[3])
      when :build
        if op[1] =~ /^(.*)\[(\d+)\]$/ && op[2] != 0 then reg.create_array($1, Integer($2), op[2])
        else reg.build(op[1], op[2])
        end
      when :alias then MC.check(reg.alias(op[1], op[2]).equal?(reg), 'alias', 'does not return self')
      when :remove_alias then reg.remove_alias(op[1])
      when :clear_aliases then reg.clear_aliases
      when :remove then reg.remove(reg.get(op[1]))
      when :merge then reg.merge(merged)
      when :load then reg.merge_xml(TEXT)
      when :resize then reg.resize(op[1].map { |n, s| [n == '/A' && reg.include?(n) ? reg.get(n) : n, s] }.to_h)
      when :metadata
        m = reg.get(op[1]).metadata
        op[3] ? m.set(op[2], *op[3]) : m.clear(op[2])
      when :field_metadata
        m = reg.get(op[1]).field_metadata[op[4]]
        op[3] ? m.set(op[2], *op[3]) : m.clear(op[2])
      end
    end

    # a small and a large registry to start from

    # runs the block, and has the garbage collector release what it leaves
    def collected
      GC.disable
      begin
        Thread.new { Thread.current.report_on_exception = false; yield; nil }.value
      ensure
        GC.enable
        GC.start
      end
    end

    # a value of a type and what it holds
    def value(t)
      return if t.null? || [:opaque, :other].include?(kind(t)) || t.contains?(Typelib::OpaqueType)
      x = t.new
      x.zero! unless t.recursive_dependencies.any? { |d| d < Typelib::PointerType } || t < Typelib::PointerType
      x.s.push(x.a) if t.name == '/L'
      x.push(x.class.deference.zero) if t < Typelib::ContainerType
      x
    rescue ArgumentError
      nil
    end
  end
end

module Bodies
  class << self
    # sequences of operations
    def operations
      r = Registries
      start = MC.choose(2, :start)
      MC.unit unless MC.thorough?
      Registries.collected { sequence(start) }
    end

    def sequence(start)
      r = Registries
      ops = r.operations
      reg, twin = r.pair(r::START[start])
      kept, gone, values = {}, [], []
      what = "from #{start}:"
      (MC.thorough? ? 3 : 2).times do |n|
        op = MC.pick(ops, :operation)
        MC.unit if MC.thorough? && n == 0
        # types given out so far, which are either in the registry or removed from it
        reg.each { |t| kept[t.name] = t }
        values = kept.values.map { |t| r.value(t) }.compact if n == 0
        before = kept.values.map { |t| [t, r.describe(t)] }
        # elements of the previous size could not be destroyed
        values.each { |x| if Typelib::ContainerType === x then x.clear elsif x.class.name == '/L' then x.s.clear end } if op[0] == :resize
        done = r.both(reg, twin, op)
        what += " #{op.inspect}"
        what += ' (refused)' unless done
        r.compare(reg, twin, what)
        dump = twin.dump
        if op[0] == :remove && done
          before.each { |t, d| gone << [t, d] if !dump[t.name] }
          gone.each { |t, _| kept.delete(t.name) }
        end
        kept.each { |name, t| MC.check(reg.get(name).equal?(t), 'kept', "#{what}: #{name} is another object now") }
        gone.each { |t, d| MC.check(r.describe(t) == d, 'gone', "#{what}: #{t.name}, which was removed, is #{r.describe(t).inspect} instead of #{d.inspect}") }
        resized = values if op[0] == :resize && done     # of the previous size: only to be destroyed
        values = [] if resized
        values.each { |x| x.to_simple_value unless x.class < Typelib::PointerType || x.class.recursive_dependencies.any? { |d| d < Typelib::PointerType } }
        reg.each { |t| x = r.value(t) and values << x }
        MC.step
      end
      # others with the same content
      copies(reg, twin, what) if MC.choose(2, :copies) == 1
      MC.state(twin.dump.to_a.inspect)
      nil
    end

    def copies(reg, twin, what)
      r = Registries
      r.compare(reg.dup, begin t = MC::Twin.new; t.apply(:merge, twin); t end, what + ' dup')
      r.compare(Typelib::Registry.from_xml(reg.to_xml), begin t = MC::Twin.new; t.apply(:load, twin.xml); t end, what + ' to_xml')
      twin.dump.each do |n, d|
        [true, false].each do |aliases|
          r.compare(reg.minimal(n, aliases), twin.minimal(n, aliases), what + " minimal(#{n}, #{aliases})")
        end
        x = Typelib::Registry.new
        t = MC::Twin.new
        x.add(reg.get(n))
        t.apply(:merge, twin.minimal(d[1], true))
        r.compare(x, t, what + " add(#{n})")
        ty = reg.get(n)
        twin.dump.keys.each do |o|
          rel = twin.relation(n, o)
          to = reg.get(o)
          MC.check(ty.casts_to?(to) == (rel & 1 != 0), 'casts_to?', "#{what}: #{n} to #{o}: #{ty.casts_to?(to)}")
          MC.check((ty == to) == (rel & 2 != 0) && ty.eql?(to) == (rel & 2 != 0), '==', "#{what}: #{n} == #{o}: #{ty == to}")
        end
      end
      other, ot = r.pair(Registries::MERGED[0])
      [true, false].each { |aliases| r.compare(reg.minimal(other, aliases), twin.minimal(ot, aliases), what + " minimal relative to another, #{aliases}") }
      r.compare(reg, twin, what + ' after copies')
    end
  end
end
