# C30: objects that describe types, once nothing else refers to the registry
module Owners
  class << self
    def registry
      r = Typelib::Registry.new
      r.create_numeric('/i', 4, :sint)
      r.create_enum('/E') { |e| e.X; e.Y = 7 }
      c = r.create_compound('/n/C') { |c| c.a = '/i'; c.e = '/E'; c.p = '/i*' }
      c.metadata.set('k' * 30, 'v' * 60)
      c.field_metadata['e'].set('f' * 30, 'w' * 60)
      r.create_container('/std/vector', '/n/C')
      r.create_array('/n/C', 3)
      r.alias('/al', '/n/C')
      r
    end
    M = { 'k' * 30 => ['v' * 60] }
    F = { 'f' * 30 => ['w' * 60] }
    def Owners.content(m) m.each.to_a.to_h end

    # what the compound looks like
    def compound(t, depth = 0)
      [t.name, t.size, t.each_field.map { |n, f| [n, f.name, f.size] }, Owners.content(t.metadata), Owners.content(t.field_metadata['e']), depth == 0 ? t.registry.map(&:name).sort : nil,
       t['e'].keys, t['p'].deference.name, t.new.class.size]
    end
    COMPOUND = ['/n/C', 16, [['a', '/i', 4], ['e', '/E', 4], ['p', '/i*', 8]], M, F]
    def compound?(t, names = true)
      got = compound(t)
      got[0, 5] == COMPOUND && got[6, 2] == [{ 'X' => 0, 'Y' => 7 }, '/i'] && (!names || got[5].include?('/std/vector</n/C>'))
    end

    # name => [block that obtains an object from a registry, block that tells whether it is right]
    WAYS = {
      metadata: [-> (r) { r.get('/n/C').metadata }, -> (m) { Owners.content(m) == M }],
      field_metadata: [-> (r) { r.get('/n/C').field_metadata['e'] }, -> (m) { Owners.content(m) == F }],
      field_definition: [-> (r) { r.get('/n/C').get_fields[1][3] }, -> (m) { Owners.content(m) == F }],
      metadata_each: [-> (r) { r.get('/n/C').metadata.each }, -> (e) { e.to_a.to_h == M }],
      type: [-> (r) { r.get('/n/C') }, -> (t) { Owners.compound?(t) }],
      field_type: [-> (r) { r.get('/n/C')['e'] }, -> (t) { t.keys == { 'X' => 0, 'Y' => 7 } && Owners.compound?(t.registry.get('/n/C')) }],
      element_type: [-> (r) { r.get('/std/vector</n/C>').deference }, -> (t) { Owners.compound?(t) }],
      array_type: [-> (r) { r.get('/n/C[3]') }, -> (t) { t.length == 3 && Owners.compound?(t.deference) }],
      container_type: [-> (r) { r.get('/std/vector</n/C>') }, -> (t) { t.container_kind == '/std/vector' && Owners.compound?(t.deference) }],
      pointer_type: [-> (r) { r.get('/n/C').to_ptr }, -> (t) { Owners.compound?(t.deference) }],
      alias: [-> (r) { r.get('/al') }, -> (t) { Owners.compound?(t) && t.registry.get('/al').equal?(t) }],
      registry: [-> (r) { r.get('/i').registry }, -> (x) { Owners.compound?(x.get('/n/C')) }],
      each: [-> (r) { r.each }, -> (e) { Owners.compound?(e.to_a.find { |t| t.name == '/n/C' }) }],
      each_aliases: [-> (r) { r.each(nil, with_aliases: true) }, -> (e) { Owners.compound?(e.to_a.to_h['/al']) }],
      list: [-> (r) { r.to_a }, -> (l) { Owners.compound?(l.find { |t| t.name == '/n/C' }) && l.all? { |t| t.metadata.keys.size < 2 } }],
      each_field: [-> (r) { r.get('/n/C').each_field }, -> (e) { e.map { |n, t| [n, t.name, t.size] } == COMPOUND[2] }],
      dup: [-> (r) { r.dup }, -> (x) { Owners.compound?(x.get('/n/C')) }],
      minimal: [-> (r) { r.minimal('/n/C').get('/n/C') }, -> (t) { Owners.compound?(t, false) }],
      merged: [-> (r) { x = Typelib::Registry.new; x.merge(r); x.get('/n/C') }, -> (t) { Owners.compound?(t) }],
      added: [-> (r) { x = Typelib::Registry.new; x.add(r.get('/n/C')); x.get('/n/C') }, -> (t) { Owners.compound?(t, false) }],
      builder: [-> (r) { k = nil; r.create_compound('/D') { |c| c.x = '/n/C'; c.y = '/al'; k = c }; k }, -> (b) { Owners.compound?(b.fields[0][1]) && Owners.compound?(b.registry.get('/n/C')) && b.registry.get('/D').size == 32 }],
      removed: [-> (r) { t = r.get('/n/C'); r.remove(t); t }, -> (t) { t.name == '/n/C' && t.size == 16 && Owners.content(t.metadata) == M && t.each_field.map { |n, _| n } == %w{a e p} }],
      removed_metadata: [-> (r) { t = r.get('/n/C'); m = t.metadata; r.remove(t); m }, -> (m) { Owners.content(m) == M }],
      removed_field_metadata: [-> (r) { t = r.get('/n/C'); m = t.field_metadata['e']; r.remove(t); m }, -> (m) { Owners.content(m) == F }],
      removed_element: [-> (r) { t = r.get('/std/vector</n/C>'); r.remove(r.get('/n/C')); t }, -> (t) { t.deference.name == '/n/C' && t.size == 24 }],
      dependencies: [-> (r) { r.get('/n/C').direct_dependencies.to_a }, -> (l) { l.map(&:name).sort == %w{/E /i /i*} && Owners.compound?(l[0].registry.get('/n/C')) }],
      reverse: [-> (r) { r.reverse_depends(r.get('/E')).to_a }, -> (l) { Owners.compound?(l.find { |t| t.name == '/n/C' }) }],
      value: [-> (r) { r.get('/n/C').new(a: 3, e: :Y) }, -> (v) { v.a == 3 && v.e == :Y && Owners.compound?(v.class) }],
      value_type: [-> (r) { r.get('/n/C').new.raw_get('e').class }, -> (t) { t.keys == { 'X' => 0, 'Y' => 7 } }],
      pointer_field: [-> (r) { v = r.get('/n/C').new(a: 3); MC.poke(v.zone_address + 8, [v.zone_address].pack('Q')); v.raw_get('p') }, -> (p) { Typelib.to_ruby(p.deference) == 3 }],
      pointer_accessor: [-> (r) { v = r.get('/n/C').new(a: 3); MC.poke(v.zone_address + 8, [v.zone_address].pack('Q')); v.p }, -> (p) { Typelib.to_ruby(p.deference) == 3 }],
      element_pointer: [-> (r) { x = r.create_array('/i*', 2).new; MC.poke(x.zone_address, [x.zone_address + 8, 77].pack('QQ')); x.raw_get(0) }, -> (p) { Typelib.to_ruby(p.deference) == 77 }],
      element_accessor: [-> (r) { x = r.create_array('/i*', 2).new; MC.poke(x.zone_address, [x.zone_address + 8, 77].pack('QQ')); x[0] }, -> (p) { Typelib.to_ruby(p.deference) == 77 }],
      export: [-> (r) { m = Module.new; r.export_to_ruby(m); m }, -> (m) { Owners.compound?(m.n.C) }],
      exported_type: [-> (r) { m = Module.new; r.export_to_ruby(m); m.n.C }, -> (t) { Owners.compound?(t) }],
      exported_namespace: [-> (r) { m = Module.new; r.export_to_ruby(m); m.n }, -> (n) { Owners.compound?(n.C) }],
    }
  end
  WAYS = singleton_class::WAYS
end

module Bodies
  class << self
    def owners
      a, b = MC.pick(Owners::WAYS.keys, :object), MC.pick([nil] + Owners::WAYS.keys, :with)
      MC.unit
      l = Lifetime
      MC.prune if a == b && a == :builder
      x, y = l.aside do
        r = Owners.registry
        x = Owners::WAYS[a][0].call(r)
        y = b && Owners::WAYS[b][0].call(b.to_s =~ /^removed/ || a.to_s =~ /^removed/ ? Owners.registry : r)
        [x, y]
      end
      again = MC.choose(2, :order)
      y = nil if again == 1       # one of them goes away
      3.times { l.collect }
      MC.check(Owners::WAYS[a][1].call(x), 'object', "#{a} (with #{b}) is not what it was")
      l.collect
      MC.check(Owners::WAYS[b][1].call(y), 'object', "#{b} (with #{a}) is not what it was") if y
      x = nil
      3.times { l.collect }
      MC.check(Owners::WAYS[b][1].call(y), 'object', "#{b} (after #{a}) is not what it was") if y
      MC.step
      MC.state("#{a} #{b}")
    end
  end
end
