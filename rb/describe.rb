# C32: names, metadata, and registries exported as Ruby modules; C31: builders
module Describe
  class << self
    # all names of types: [name, components], with templates up to this depth
    WORDS = %w{a Bc v_1}
    def component(depth, what)
      w = MC.pick(WORDS, what)
      return w if depth == 0
      case MC.choose(depth == 2 ? 5 : 3, :template)
      when 0 then w
      when 1 then "#{w}<#{argument(depth - 1)}>"
      when 2 then "#{w}<#{argument(0)},#{argument(depth - 1)}>"
      when 3 then "#{w}<#{argument(1)},#{argument(0)}>"
      when 4 then "#{w}<#{argument(0)},#{argument(0)},#{argument(0)}>"
      end
    end
    def argument(depth)
      case MC.choose(depth > 0 ? 4 : 3, :argument)
      when 0 then MC.pick(%w{3 -2}, :number)
      when 1 then '/' + component(depth, :word)
      when 2 then MC.pick(%w{/a/Bc /a/Bc[2] /v_1*}, :type)
      when 3 then '/a/' + component(depth, :word)
      end
    end
    # where the slashes outside of template arguments are
    def split(name)
      depth, parts = 0, ['']
      name.each_char do |c|
        depth += 1 if c == '<'
        depth -= 1 if c == '>'
        if c == '/' && depth == 0 then parts << '' else parts.last << c end
      end
      parts.drop(1)
    end
    # name of a C++ class template and its arguments
    def arguments(depth)
      n = MC.choose(3, :arguments) + 1
      Array.new(n) do
        w = MC.pick(%w{/a /n/Bc 12}, :word)
        case depth == 0 ? 0 : MC.choose(n == 3 ? 3 : 4, :kind)
        when 0 then w
        when 1 then w + '<>'
        when 2 then "#{w}</x<>,y>[3]"
        when 3 then "#{w}<#{arguments(depth - 1).join(',')}>"
        end
      end
    end
  end
end

module Bodies
  class << self
    def names
      if MC.choose(2, :what) == 0
        n = MC.choose(3, :components)
        parts = Array.new(n) { |i| Describe.component(i == n - 1 && n == 2 ? 0 : 1, :namespace) }
        MC.unit if n > 0
        parts << Describe.component(n == 0 || MC.thorough? ? 2 : 2 - n, :name)
        MC.unit if n == 0
        suffix = MC.pick(['', '[3]', '*', '[2][4]*'], :suffix)
        parts[-1] += suffix
        name = '/' + parts.join('/')
        sep = MC.pick(['/', '::', nil, '..'], :separator)
        s = sep || '/'
        ns = '/' + parts[0..-2].map { |p| p + '/' }.join
        sub = -> (x) { x.gsub('/', s) }
        MC.check(Describe.split(name) == parts, 'harness', name)
        got = Typelib.split_typename(name)
        MC.check(got == parts, 'split', "#{name} is split into #{got.inspect}")
        given = name.dup
        {
          basename: [Typelib.basename(given, sep), sub.(parts[-1])],
          namespace: [Typelib.namespace(given, sep), sub.(ns)],
          leading: [Typelib.namespace(given, sep, true), sub.(ns[1..-1])],
        }.each { |k, (x, want)| MC.check(x == want, k.to_s, "#{name} with #{sep.inspect} gives #{x.inspect} instead of #{want.inspect}") }
        MC.check(given == name, 'argument', "#{name} was changed to #{given}")
        if suffix.empty?
          t = Typelib::Registry.new.create_opaque(name, 4)
          MC.check(t.name == name && t.full_name == name && t.basename == parts[-1] && t.namespace == ns && t.split_typename == parts, 'type', "#{name}: #{[t.name, t.full_name, t.basename, t.namespace, t.split_typename].inspect}")
          MC.check(t.full_name(sep) == sub.(name) && t.full_name(sep, true) == sub.(name[1..-1]), 'full-name', "#{name} with #{sep.inspect}: #{t.full_name(sep)} and #{t.full_name(sep, true)}")
          MC.check(t.name == name, 'argument', "#{name} was changed to #{t.name}")
        end
        MC.step
        MC.state(name)
      else
        base = MC.pick(%w{/std/vector map}, :base)
        args = Describe.arguments(MC.thorough? ? 2 : 1)
        MC.unit
        space = MC.pick(['', ' '], :space)
        tail = MC.pick(['', '[3]', '*'], :tail)
        name = "#{base}<#{args.join(',' + space)}>#{tail}"
        got = Typelib::CXX.parse_template(name)
        MC.check(got == [base, args], 'template', "#{name} is read as #{got.inspect}")
        got = Typelib::CXX.parse_template(base)
        MC.check(got == [base, []], 'template', "#{base} is read as #{got.inspect}")
        MC.step
        MC.state(name)
      end
    end

    # offsets and values that are not given follow from the previous ones
    def builders
      r = Typelib::Registry.new
      r.create_numeric('/i', 4, :sint); r.create_numeric('/c', 1, :sint); r.create_compound('/n/D', 12) { |d| d.x = '/i' }
      if MC.choose(2, :what) == 0
        sizes = { '/i' => 4, '/c' => 1, '/n/D' => 12, '/c[3]' => 3, '/i*' => 8 }
        count = MC.choose(MC.thorough? ? 5 : 4, :fields)
        MC.unit if count == 0
        want, at, size = [], 0, 0
        total = MC.pick([0, 3, 64], :size)
        yields = nil
        t = r.create_compound('/T', total) do |c|
          yields = c
          count.times do |i|
            n, s = MC.pick(sizes.to_a, :type)
            o = MC.pick([nil, 0, 5], :offset)
            MC.unit if i == 0
            name = "f#{i}"
            case o ? MC.choose(2, :how) : MC.choose(count < 3 ? 4 : 2, :how)
            when 0 then o ? c.add(name, n, o) : c.add(name, n)
            when 1 then o ? c.add(name.to_sym, r.build(n), o) : c.send("#{name}=", n)
            when 2 then c.send("#{name}=", r.build(n))
            when 3 then c.add(name, n.to_sym, nil)
            end
            at = o if o
            want << [name, at, n]
            at += s
            size = [size, at].max
          end
        end
        size = total if total != 0
        got = t.get_fields.map { |n, o, ft, _| [n, o, ft.name] }
        MC.check(got == want, 'fields', "fields #{got.inspect} instead of #{want.inspect}")
        MC.check(t.size == size && r.get('/T').equal?(t), 'size', "#{t.size} instead of #{size} for #{want.inspect}")
        MC.check(yields.name == '/T' && yields.registry.equal?(r), 'builder', 'name or registry')
        MC.state(want.inspect + size.to_s)
      else
        count = MC.choose(MC.thorough? ? 5 : 4, :symbols) + 1
        size = MC.pick([0, 1, 8], :size)
        want, v = {}, 0
        t = r.create_enum('/T', size) do |e|
          count.times do |i|
            x = MC.pick([nil, 0, 7, -3, '0x10', 1 << 30], :value)
            MC.unit if i == 0
            name = %w{A B_1 c D2 Zz}[i]
            if x then MC.choose(2, :how) == 0 ? e.add(name, x) : e.send("#{name}=", x)
            else MC.choose(2, :how) == 0 ? e.add(name.to_sym) : e.send(name)
            end
            v = Integer(x) if x
            want[name] = v
            v += 1
          end
        end
        MC.check(t.keys == want, 'symbols', "#{t.keys.inspect} instead of #{want.inspect}")
        MC.check(size == 0 || t.size == size, 'size', "#{t.size} instead of #{size}")
        want.each { |n, x| MC.check(t.value_of(n) == x && want[t.name_of(x).to_s] == x, 'value', n) }
        MC.check(r.get('/T').equal?(t), 'registry', 'another type')
        MC.state(want.inspect + size.to_s)
      end
      MC.step
    end

    # metadata behaves as a map from texts to sets of texts
    def metadata
      where = MC.pick(%i{own type field}, :where)
      keys = ['k', "cl\u00e9", 'nul' + "\0" + 'x', 'nul']
      values = ['', 'v', 'w' * 40, "a\0b", "\u00e9<&>\n"]
      m, r = nil
      case where
      when :own then m = Typelib::MetaData.new
      else
        r = Typelib::Registry.new
        r.create_numeric('/i', 4, :sint); t = r.create_compound('/C') { |c| c.a = '/i'; c.b = '/i' }
        m = where == :type ? t.metadata : t.field_metadata['b']
      end
      want, trace = {}, []
      length = (MC.thorough? ? 4 : 3) - (where == :own ? 0 : 1)
      length.times do |i|
        op = MC.choose(10, :op)
        MC.unit if i == 0
        break if op == 9
        k = op == 7 || op == 8 ? 'k' : MC.pick(i > 1 ? keys.first(1) : keys.first(4 - i), :key)
        v = -> { MC.pick(i > 0 ? values.first(4 - i) : values, :value) }
        done = case op
               when 0 then x = v[]; m.set(k, x); want[k] = [x]; "set #{x.inspect}"
               when 1 then x = v[]; m[k] = x; want[k] = [x]; "[]= #{x.inspect}"
               when 2 then x = v[]; m.add(k, x); want[k] = (want[k] || []) | [x]; "add #{x.inspect}"
               when 3 then x = v[]; m.add(k, x, 'v', 'z', x); want[k] = (want[k] || []) | [x, 'v', 'z']; "add #{x.inspect} v z"
               when 4 then m.set(k, 'z', 'v', 'z'); want[k] = %w{z v}; 'set z v z'
               when 5 then m.clear(k); want.delete(k); 'clear'
               when 6 then m.delete(k); want.delete(k); 'delete'
               when 7 then m.clear; want = {}; 'clear all'
               when 8
                 bad = MC.pick(i == 0 ? [3, nil, :sym, ['v'], Object] : [3], :bad)
                 how = MC.choose(i > 1 ? 2 : 6, :refused)
                 MC.refused('accepted', "#{bad.inspect} (#{how})") do
                   case how
                   when 0 then m.set(k, 'x', bad)
                   when 1 then m.add(k, 'x', bad)
                   when 2 then m.add(bad, 'x')
                   when 3 then m.clear(bad)
                   when 4 then m.get(bad)
                   when 5 then m.include?(bad)
                   end
                 end
                 "refused #{how}"
               end
        trace << "#{done} #{k.inspect}"
        text = "#{where}: #{trace.inspect}"
        MC.check(m.keys.sort == want.keys.sort, 'keys', "#{text}: #{m.keys.inspect} instead of #{want.keys.inspect}")
        keys.each do |x|
          MC.check(m.get(x).sort == (want[x] || []).sort && m[x] == m.get(x), 'get', "#{text}: #{x.inspect} is #{m.get(x).inspect} instead of #{want[x].inspect}")
          MC.check(m.include?(x) == want.key?(x), 'include', "#{text}: #{x.inspect}")
        end
        got = m.each.to_a
        MC.check(got.size == want.size && got.all? { |x, l| l.sort == want[x].sort && l.all? { |y| y.encoding == Encoding::UTF_8 } }, 'each', "#{text}: #{got.inspect}")
        if r
          x = where == :type ? r.get('/C').metadata : r.get('/C').field_metadata['b']
          MC.check(x.each.to_a.sort == got.sort && x.equal?(m), 'same', text)
          MC.check(r.get('/i').metadata.keys.empty? && (where == :type ? r.get('/C').field_metadata['b'] : r.get('/C').metadata).keys.empty? && r.get('/C').field_metadata['a'].keys.empty?, 'others', text)
          d = r.dup.get('/C')
          x = where == :type ? d.metadata : d.field_metadata['b']
          MC.check(x.each.to_a.sort == got.sort, 'copy', text)
        end
        MC.step
      end
      MC.state(want.sort.inspect + where.to_s)
    end

    EXPORTED = ['/i', '/n/C', '/n/C/In', '/n/m/myType', '/o/myType', '/o/m/Deep', '/my_type', '/n/MyOther', '/o/my_other', '/ExportedTypes/Odd', '/n/i', '/x/y/z/w']
    # how to get to a type: names of methods or constants, and what they give (nil: refused)
    PATHS = [
      [%w{i}, '/i'], [%w{n C}, '/n/C'], [%w{n C In}, '/n/C/In'], [%w{n m myType}, '/n/m/myType'], [%w{o myType}, '/o/myType'], [%w{o m Deep}, '/o/m/Deep'], [%w{my_type}, '/my_type'],
      [%w{n MyOther}, '/n/MyOther'], [%w{o my_other}, '/o/my_other'], [%w{ExportedTypes() Odd}, '/ExportedTypes/Odd'], [%w{n i}, '/n/i'], [%w{x y z w}, '/x/y/z/w'],
      [%w{n ::C}, '/n/C'], [%w{n C ::In}, '/n/C/In'], [%w{n ::MyOther}, '/n/MyOther'], [%w{::MyType}, '/my_type'], [%w{n m ::MyType}, '/n/m/myType'], [%w{o ::MyType}, '/o/myType'], [%w{o ::MyOther}, '/o/my_other'],
      [%w{::ExportedTypes ::Odd}, '/ExportedTypes/Odd'], [%w{::N ::C}, '/n/C'], [%w{::X ::Y ::Z ::W}, '/x/y/z/w'],
      [%w{nope}, nil], [%w{n nope}, nil], [%w{n my_type}, nil], [%w{o C()}, nil], [%w{n ::Nope}, nil], [%w{::Nope}, nil], [%w{n C nope}, nil], [%w{n ::MyType}, nil], [%w{o m myType}, nil], [%w{x y z v}, nil], [%w{x y w}, nil],
      [['std', 'vector(/n/C)'], '/std/vector</n/C>'], [['std', 'vector!(/n/C)'], '/std/vector</n/C>'], [['std', 'vector(/i)'], nil], [['al'], '/n/C'], [['n', 'al2'], '/i'], [['tpl(/i,3)'], '/tpl</i,3>'], [['tpl(/i)', 'T'], '/tpl</i>/T'], [['tpl(3)'], nil],
    ]
    def exported
      r = Typelib::Registry.new
      r.create_numeric('/i', 4, :sint)
      (EXPORTED - ['/i']).each { |n| r.create_compound(n) { |c| c.send(n == '/my_type' ? 'g=' : 'f=', '/i') } }
      r.create_container('/std/vector', '/n/C')
      ['/tpl</i,3>', '/tpl</i>/T'].each { |n| r.create_opaque(n, 3) }
      r.alias('/al', '/n/C'); r.alias('/n/al2', '/i')
      base = MC.pick(%i{module named namespace filter filter_all}, :base)
      Object.send(:remove_const, :ExportedTypes) if Object.const_defined?(:ExportedTypes)
      m = base == :namespace ? Typelib::RegistryExport::Namespace.new : Module.new
      Object.const_set(:ExportedTypes, m) if base == :named
      calls = []
      other = r.get('/my_type')
      case base
      when :filter then r.export_to_ruby(m) { |t, x| calls << [t, x]; x }
      when :filter_all then r.export_to_ruby(m) { |t, x| calls << [t, x]; t.name == '/n/C' ? other : x }
      else r.export_to_ruby(m)
      end
      trace = []
      (MC.thorough? ? 3 : 2).times do |i|
        path, name = MC.pick(PATHS, :path)
        MC.unit if i == 0
        trace << path
        want = name && r.get(name)
        want = other if base == :filter_all && name == '/n/C'
        if base == :filter_all && path[0, 2] == %w{n C} && path.size > 2
          want = nil if path[2] == 'nope'
          next     # what is below a type that is replaced
        end
        go = -> do
          path.inject(m) do |x, p|
            if p =~ /^::(.*)/ then x.const_get($1, false)
            elsif p =~ /^(\w+)(!?)\((.*)\)$/
              n, b, a = $1, $2, $3.split(',')
              x.send(n, *a.map { |y| b.empty? ? (y =~ /^\d+$/ ? y.to_i : y) : r.get(y) })
            else x.send(p)
            end
          end
        end
        2.times do |again|
          if want
            got = go.call
            numeric = want.name == '/i' && got.name == 'Numeric'      # what it is converted to
            MC.check(numeric || Class === got && got.equal?(want), 'type', "#{base} #{trace.inspect}: #{got.inspect} instead of #{want.inspect}")
          else
            begin
              got = go.call
            rescue NoMethodError, NameError, Typelib::RegistryExport::NotFound
              MC.count(:refused)
            else
              MC.fail('nothing', "#{base} #{trace.inspect}: gives #{got.inspect}")
            end
          end
        end
        MC.step
      end
      calls.each { |t, x| MC.check((t.equal?(x) || t.name == '/i' && x.name == 'Numeric') && r.get(t.name).equal?(t), 'filter', "called with #{t.inspect} and #{x.inspect}") }
      MC.check(calls.map(&:first).uniq.size == calls.size || base == :filter_all || trace.any? { |p| p.any? { |w| w =~ /::|al|vector/ } }, 'filter', "called several times: #{calls.inspect}")
      # another registry takes its place
      q = Typelib::Registry.new
      q.create_opaque('/i', 9)
      m.disable_registry_export if MC.choose(2, :disable) == 1
      q.export_to_ruby(m)
      MC.check(m.send(:i).equal?(q.get('/i')), 'reset', m.send(:i).inspect)
      MC.state("#{base} #{trace}")
    end
  end
end
