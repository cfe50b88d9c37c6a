# C31: calls that cannot be done, on registries
module Registries
  class << self
    # [name, must be refused, call]
    def refusals
      must, may = [], []
      m = lambda { |n, &b| must << [n, true, b] }
      o = lambda { |n, &b| may << [n, false, b] }
      m.('get of nothing') { |r, _| r.get('/nothing') }
      m.('get of an empty name') { |r, _| r.get('') }
      m.('get of nil') { |r, _| r.get(nil) }
      m.('get of a relative name') { |r, _| r.get('n/Nope') }
      ['/nothing', '/nothing[2]', '/nothing*', '', '[2]', '*', '/A[', '/A[2', '/A[x]', '/A[-1]', '/A[2]x', '/A[2][', '/A]', '/A**[y]', '/A[99999999999999999999]', '</A>', '/std/vector<', '/n/', '/'].each do |n|
        m.("build #{n}") { |r, _| r.build(n) }
      end
      ['/A[1', '/A[ 2]', '/A[2 ]', '/A[+2]', '/A[02]', '/A[0x2]', '/A []', '/A[]', '/A *', '/std/vector</A'].each { |n| o.("build #{n}") { |r, _| r.build(n) } }
      m.('build without a name') { |r, _| r.build }
      m.('build with a size that is no number') { |r, _| r.build('/A[7]', 'x') }
      m.('build of nil') { |r, _| r.build(nil) }
      bad = ['bad', '', '/', '//x', '/x//y', '/x/', '/A', '/C', '/A[2]', '/x/A2', 'A']
      bad.each do |n|
        m.("numeric #{n}") { |r, _| r.create_numeric(n, 4, :uint) }
        m.("opaque #{n}") { |r, _| r.create_opaque(n, 7) }
        m.("null #{n}") { |r, _| r.create_null(n) }
        m.("enum #{n}") { |r, _| r.create_enum(n) { |e| e.OTHER } }
        m.("compound #{n}") { |r, _| r.create_compound(n, 3) }
        m.("compound with fields #{n}") { |r, _| r.create_compound(n) { |c| c.f = '/A' } }
        m.("alias #{n}") { |r, _| r.alias(n, '/E') }
      end
      ['/x y', '/x[2]', '/x*', '/x<', '/x>', '/<>', '/x<y/z>', '/x<y>z', "/x\n", '/é', '/x<a,b>'].each do |n|
        o.("numeric #{n}") { |r, _| r.create_numeric(n, 4, :uint) }
        o.("compound #{n}") { |r, _| r.create_compound(n) { |c| c.f = '/A' } }
        o.("alias #{n}") { |r, _| r.alias(n, '/A') }
      end
      m.('numeric of another category') { |r, _| r.create_numeric('/ok', 4, :bool) }
      m.('numeric of a size that is no number') { |r, _| r.create_numeric('/ok', nil, :sint) }
      m.('numeric without a name') { |r, _| r.create_numeric(nil, 4, :sint) }
      m.('do_create_numeric of an unknown category') { |r, _| r.do_create_numeric('/ok', 4, 3) }
      m.('opaque without a size') { |r, _| r.create_opaque('/ok', nil) }
      m.('opaque with a size out of range') { |r, _| r.create_opaque('/ok', 1 << 40) }
      m.('null without a name') { |r, _| r.create_null(3) }
      m.('enum without symbols') { |r, _| r.create_enum('/ok') { |e| } }
      m.('enum with the same symbol twice') { |r, _| r.create_enum('/ok') { |e| e.add('S', 1); e.add('S', 2) } }
      m.('enum with a value out of range') { |r, _| r.create_enum('/ok') { |e| e.add('S', 1 << 40) } }
      m.('enum with a value that is none') { |r, _| r.create_enum('/ok') { |e| e.add('S', 'x') } }
      m.('enum with a call that is no symbol') { |r, _| r.create_enum('/ok') { |e| e.call_me(1, 2) } }
      m.('enum without a name') { |r, _| r.create_enum(nil) { |e| e.S } }
      m.('enum of a size that is no number') { |r, _| r.create_enum('/ok', 'x') { |e| e.S } }
      m.('enum, exception in the block') { |r, _| r.create_enum('/ok') { |e| e.S; raise ArgumentError } }
      m.('compound with a field of an unknown type') { |r, _| r.create_compound('/ok') { |c| c.add('f', '/nothing') } }
      m.('compound with a field of no type') { |r, _| r.create_compound('/ok') { |c| c.add('f', 4) } }
      m.('compound with a field of type String') { |r, _| r.create_compound('/ok') { |c| c.add('f', String, 0) } }
      m.('compound with an offset that is no number') { |r, _| r.create_compound('/ok') { |c| c.add('f', '/A', 'x') } }
      m.('compound with an offset out of range') { |r, _| r.create_compound('/ok') { |c| c.add('f', '/A', 1 << 40) } }
      m.('compound without a name') { |r, _| r.create_compound(nil) { |c| c.f = '/A' } }
      m.('compound with a call that is no field') { |r, _| r.create_compound('/ok') { |c| c.call_me } }
      m.('compound, exception in the block') { |r, _| r.create_compound('/ok') { |c| c.f = '/A'; raise ArgumentError } }
      m.('compound with a field of another registry') { |r, x| r.create_compound('/ok') { |c| c.add('f', x.get('/A')) } }
      m.('compound with a field of another registry that has none such') { |r, x| r.create_compound('/ok') { |c| c.add('f', x.get('/Only')) } }
      m.('compound with a removed type') { |r, x| r.create_compound('/ok') { |c| c.add('f', x.gone) } }
      m.('container of an unknown kind') { |r, _| r.create_container('/nothing', '/A') }
      m.('container of an unknown element') { |r, _| r.create_container('/std/vector', '/nothing') }
      m.('container of an element of another registry') { |r, x| r.create_container('/std/vector', x.get('/A')) }
      m.('container of a removed element') { |r, x| r.create_container('/std/vector', x.gone) }
      m.('container of no element') { |r, _| r.create_container('/std/vector', nil) }
      m.('container without a kind') { |r, _| r.create_container(nil, '/A') }
      m.('container of a size that is no number') { |r, _| r.create_container('/std/vector', '/E', 'x') }
      o.('string of something else than characters') { |r, _| r.create_container('/std/string', '/C') }
      m.('array of nothing') { |r, _| r.create_array('/nothing', 2) }
      m.('array of a length that is none') { |r, _| r.create_array('/A', -2) }
      m.('array of nil') { |r, _| r.create_array(nil, 2) }
      m.('alias of nothing') { |r, _| r.alias('/ok', '/nothing') }
      m.('alias of nil') { |r, _| r.alias('/ok', nil) }
      m.('alias called nil') { |r, _| r.alias(nil, '/A') }
      o.('alias of itself') { |r, _| r.alias('/A', '/A') }
      m.('remove_alias of a type') { |r, _| r.remove_alias('/A') }
      m.('remove_alias of nothing') { |r, _| r.remove_alias('/nothing') }
      m.('remove_alias of nil') { |r, _| r.remove_alias(nil) }
      m.('remove of a type of another registry') { |r, x| r.remove(x.get('/A')) }
      m.('remove of a type of another registry that has none such') { |r, x| r.remove(x.get('/Only')) }
      m.('remove of a type that was removed') { |r, x| r.remove(x.gone) }
      m.('remove of a name') { |r, _| r.remove('/A') }
      m.('remove of a class that is no type') { |r, _| r.remove(String) }
      o.('reverse_depends of a type of another registry') { |r, x| r.reverse_depends(x.get('/Only')) }
      o.('reverse_depends of a removed type') { |r, x| r.reverse_depends(x.gone) }
      o.('aliases_of a type of another registry') { |r, x| r.aliases_of(x.get('/Only')) }
      o.('aliases_of a removed type') { |r, x| r.aliases_of(x.gone) }
      m.('source_id_of a type of another registry') { |r, x| r.source_id_of(x.get('/Only')) }
      m.('reverse_depends of no type') { |r, _| r.reverse_depends(String) }
      m.('aliases_of nil') { |r, _| r.aliases_of(nil) }
      m.('resize of nothing') { |r, _| r.resize('/nothing' => 8) }
      m.('resize of nothing together with something') { |r, _| r.resize('/A' => 8, '/nothing' => 8) }
      m.('resize to no number') { |r, _| r.resize('/A' => nil) }
      m.('resize of nil') { |r, _| r.resize(nil => 8) }
      m.('resize_type of nothing') { |r, _| r.resize_type('/nothing', 8) }
      o.('resize of an array') { |r, _| r.resize('/A[2]' => 3) }
      o.('resize to something smaller') { |r, _| r.resize('/C' => 1) }
      o.('resize to zero') { |r, _| r.resize('/A' => 0) }
      m.('merge of nil') { |r, _| r.merge(nil) }
      m.('merge of a type') { |r, _| r.merge(r.get('/A')) }
      ['', 'x', '<typelib>', '<typelib></typelib', '<typelib><numeric/></typelib>', '<typelib><numeric name="/ok" size="4"/></typelib>',
       '<typelib><numeric name="ok" size="4" category="sint"/></typelib>', '<typelib><compound name="/ok" size="4"><field name="x" type="/nothing" offset="0"/></compound></typelib>',
       '<typelib><alias name="/ok" source="/nothing"/></typelib>', '<typelib><enum name="/ok" size="4"><value symbol="X" value="1"/><value symbol="X" value="2"/></enum></typelib>',
       '<typelib><container name="/ok" of="/A" size="24" kind="/nothing"/></typelib>', '<typelib><numeric name="/ok" size="x" category="sint"/></typelib>', '<typelib><what name="/ok"/></typelib>',
       '<typelib><enum name="/ok" size="4"><value symbol="X" value="y"/></enum></typelib>', '<typelib><array name="/ok" of="/A" dimension="q"/></typelib>'].each do |x|
        m.("merge_xml #{x}") { |r, _| r.merge_xml(x) }
        m.("from_xml #{x}") { |r, _| Typelib::Registry.from_xml(x) }
      end
      m.('merge_xml of nil') { |r, _| r.merge_xml(nil) }
      m.('minimal of nothing') { |r, _| r.minimal('/nothing') }
      m.('minimal of nil') { |r, _| r.minimal(nil) }
      m.('minimal of a type') { |r, _| r.minimal(r.get('/A')) }
      m.('export in an unknown format') { |r, _| r.export('nothing') }
      m.('import of a file that does not exist') { |r, _| r.import('/nonexistent/file.tlb') }
      m.('import of a file of unknown type') { |r, _| r.import('/nonexistent/file.xyz') }
      m.('import in an unknown format') { |r, _| r.import('/nonexistent/file.tlb', 'nothing') }
      m.('import of a directory') { |r, _| r.import('/usr/', 'tlb') }
      m.('add_standard_cxx_types over other types') { |r, _| r.create_numeric('/float', 4, :sint) unless r.include?('/float'); Typelib::Registry.add_standard_cxx_types(r) }
      m.('add of nil') { |r, _| r.add(nil) }
      m.('each, exception in the block') { |r, _| r.each { raise ArgumentError } }
      m.('each with an unknown option') { |r, _| r.each(nope: 1) {} }
      must + may
    end

    def other
      x = pair([[:numeric, '/A', 4, :sint], [:numeric, '/Only', 2, :uint]])[0]
      x.define_singleton_method(:gone) { @gone }
      x
    end
  end
end

module Bodies
  class << self
    def refused
      r = Registries
      name, must, call = MC.pick(r.refusals, :call)
      MC.unit
      twice = MC.choose(2, :twice)
      Registries.collected do
        reg, twin = r.pair(r::START[1])
        x = r.other
        reg.create_compound('/Gone', 16) { |c| c.add('a', '/A') }
        t = reg.get('/Gone')
        reg.remove(t)
        x.instance_variable_set(:@gone, t)
        before, xml = r.view(reg), reg.to_xml
        kept = reg.each.to_a
        done = ever = false
        (1 + twice).times do |i|
          done = false
          live = MC.live
          begin
            call.call(reg, x)
            done = ever = true
          rescue StandardError, NotImplementedError => e
            MC.log("#{e.class}: #{e.message.b.inspect}")
          end
          MC.step
          MC.check(!(done && must), "accepted: #{name}", "#{name} is accepted")
          MC.count(done ? :accepted : :refused)
          before, xml = r.view(reg), reg.to_xml if done
          # what the first one needs can be there to stay
          MC.check(MC.live == live, "leak: #{name}", "#{MC.live - live} objects are left behind") if i == 1 && !done && name !~ /from_xml|add_standard/
          next if done || name =~ /add_standard/
          now = r.view(reg)
          MC.check(now == before, 'refused-modified', "#{name} is refused (#{e.message.b.inspect}) and modifies #{(before.to_a - now.to_a).inspect} to #{(now.to_a - before.to_a).inspect}")
          MC.check(reg.to_xml == xml, 'refused-xml', name)
        end
        kept.each { |k| MC.check(reg.get(k.name).equal?(k), 'refused-identity', "#{name}: #{k.name} is another object") } unless done
        # and it can be used as before
        unless done || name =~ /add_standard/
          r.both(reg, twin, [:compound, '/After', [['a', '/A', 0], ['c', '/C', 8]], 0])
          r.both(reg, twin, [:alias, '/AfterA', '/A'])
        end
        ever || name =~ /add_standard/ ? r.view(reg) : r.compare(reg, twin, "after #{name}")
        MC.state(name)
      end
    end
  end
end
