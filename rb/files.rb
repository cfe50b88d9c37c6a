# Files that are imported and exported from Ruby (C35)
require 'tmpdir'
require 'fileutils'
module Files
  # how a set of options is given to the importers and exporters
  def self.dump(h)
    values, children = Hash.new { |x, k| x[k] = [] }, Hash.new { |x, k| x[k] = [] }
    h.each do |k, v|
      k = k.to_s
      case v
      when Array then v.each { |x| Hash === x ? children[k] << dump(x) : values[k] << x.to_s }
      when Hash then children[k] << dump(v)
      else values[k] = [v.to_s]
      end
    end
    '{'.b + values.sort.map { |k, l| l.map { |v| "#{k.bytesize}:#{k}=#{v.bytesize}:#{v};".b }.join }.join +
      children.sort.map { |k, l| l.map { |v| "#{k.bytesize}:#{k}->".b + v + ';' }.join }.join + '}'
  end
  def self.snap(r) r.to_xml end
  # the type of each name
  def self.types(r) h = {}; r.each(with_aliases: true) { |n, t| h[n] = [t.name, t.size, t.opaque?] }; h end
  TLB = {
    good: '<typelib><numeric name="/n" category="uint" size="2"/><compound name="/ns/C" size="8"><field name="a" type="/n" offset="4"/></compound><alias name="/ns/D" source="/ns/C"/></typelib>',
    metadata: '<typelib><opaque name="/op" size="7"><metadata key="k"><![CDATA[v]]></metadata></opaque></typelib>',
    same: '<typelib><numeric name="/mine" category="sint" size="4"/><numeric name="/n" category="uint" size="2"/></typelib>',
    other: '<typelib><numeric name="/n" category="uint" size="2"/><numeric name="/mine" category="sint" size="8"/></typelib>',
    alias: '<typelib><numeric name="/n" category="uint" size="2"/><alias name="/mine" source="/n"/></typelib>',
    malformed: '<typelib><numeric name="/n" category="uint" size="2"/>', root: '<other/>', field: '<typelib><compound name="/ns/C" size="8"><field name="a" type="/none" offset="4"/></compound></typelib>',
    nothing: '', empty: '<typelib/>'
  }
  RECORD = { good: "type /n 2 type /ns/C 8 alias /ns/C /ns/D", same: "type /mine 4", other: "type /n 2 type /mine 8", nothing: '', runtime: 'type /n 2 throw runtime', import: 'type /n 2 throw import',
             typelib: 'throw typelib', logic: 'throw logic', memory: 'throw memory', twice: 'type /n 2 type /n 2' }
end

module Bodies
  class << self
    OPTION_VALUES = [nil, 'text', :symbol, 12, -3, 2.5, true, false, '', 'a;b=c', "\u9999", [], ['x'], ['y', :z, 7], ['-I', 'a', '-I', 'b'], [true, ''], {}, { 'in' => 'side' }, { a: 1, b: [2, 3] }, [{ a: 1 }], [{ a: 1 }, { 'b' => ['c'] }], { x: { y: { z: true } } }, [{}], [{ deep: [{ er: 1 }, { er: 2 }] }]]
    # options arrive as they are given
    def files_options
      count = MC.choose(MC.thorough? ? 4 : 3, :count)
      used = {}
      count.times do |i|
        key = MC.pick(i == 0 ? [:key, 'other key'] : [:key, 'key', 'third'], :key)
        v = i == 2 ? MC.pick([nil, 'text', ['y', :z], { a: 1 }], :value) : MC.pick(OPTION_VALUES, :value)
        MC.prune if used.has_key?(key)
        used[key] = v
      end
      way = MC.pick(%i{export import class_import}, :way)
      # a key that is given as a symbol and as a text: the last scalar replaces, lists are added
      MC.prune if way != :export && used.keys.any? { |k| String === k }
      MC.unit
      MC.record
      r = Typelib::Registry.new
      want = Files.dump(used)
      before = MC.live
      case way
      when :export
        text = r.export('mc-record', used)
        MC.check(text.b == want + "\n", 'options', "#{used.inspect} given to an exporter: #{text.inspect} instead of #{want.inspect}")
        MC.check(r.export('mc-record').b == "{}\n", 'options', "without options: #{r.export('mc-record').inspect}")
      else
        Dir.mktmpdir('mc-files') do |d|
          f = File.join(d, 'f.tlb')
          File.write(f, 'type /x 2')
          if way == :import then r.import(f, 'mc-record', **used)
          else r = Typelib::Registry.import(f, 'mc-record', **used) end
          got = MC.recorded.b
          MC.check(got == "path #{f} stream ".b + want, 'options', "#{used.inspect} given to an importer: #{got.inspect} instead of #{want.inspect}")
          MC.check(Files.types(r) == { '/x' => ['/x', 2, false] }, 'types', Files.types(r).inspect)
        end
      end
      MC.check(MC.record == 0, 'leak', 'the importer or exporter remains')
      MC.step
      MC.state([way, used].inspect)
    end

    # what is imported, from which kind of file
    def files_import
      format = MC.pick(%i{tlb record}, :format)
      list = format == :tlb ? Files::TLB : Files::RECORD
      content = MC.pick(list.keys + [:missing, :directory], :content)
      ext = MC.pick(format == :tlb ? %w{.tlb .xml .TLB .hh.tlb .d/f.tlb} : %w{.record .tlb}, :extension)
      kind = MC.pick([:default, nil, 'auto', format == :tlb ? 'tlb' : 'mc-record', 'unknown'], :kind)
      merge = MC.pick([nil, true, false], :merge)
      start = MC.pick(%i{empty mine more}, :registry)
      way = MC.pick(%i{absolute relative class class_relative}, :way)
      MC.prune if way.to_s.start_with?('class') && start != :empty
      MC.prune if content == :directory && format == :record # an empty stream
      MC.prune if format == :record && ext == '.tlb' && [:default, nil, 'auto'].include?(kind)
      MC.unit
      MC.record
      here = Dir.pwd
      Dir.mktmpdir('mc-files') do |d|
        d = File.realpath(d)
        f = File.join(d, "f#{ext}")
        FileUtils.mkdir_p(File.dirname(f))
        case content
        when :missing then nil
        when :directory then Dir.mkdir(f)
        else File.write(f, list[content])
        end
        r = Typelib::Registry.new
        r.create_numeric('/mine', 4, :sint) unless start == :empty
        if start == :more
          r.create_numeric('/n', 2, :uint); r.create_compound('/ns/C', 8) { |c| c.add('a', '/n', 4) }; r.alias('/ns/E', '/ns/C'); r.get('/mine').metadata.set('k', 'mine')
        end
        before = Files.types(r)
        xml = Files.snap(r)
        args = kind == :default ? [] : [kind]
        opts = merge.nil? ? {} : { merge: merge }
        name = way.to_s.end_with?('relative') ? "f#{ext}" : f
        known = { '.tlb' => 'tlb' }[File.extname(f)]
        reader = [:default, nil, 'auto'].include?(kind) ? known : kind
        # what it contains
        added = if reader == 'tlb' && format == :tlb
                  { good: { '/n' => ['/n', 2, false], '/ns/C' => ['/ns/C', 8, false], '/ns/D' => ['/ns/C', 8, false] }, metadata: { '/op' => ['/op', 7, true] },
                    same: { '/mine' => ['/mine', 4, false], '/n' => ['/n', 2, false] }, other: { '/n' => ['/n', 2, false], '/mine' => ['/mine', 8, false] },
                    alias: { '/n' => ['/n', 2, false], '/mine' => ['/n', 2, false] }, empty: {} }[content]
                elsif reader == 'mc-record'
                  { good: { '/n' => ['/n', 2, false], '/ns/C' => ['/ns/C', 8, false], '/ns/D' => ['/ns/C', 8, false] }, same: { '/mine' => ['/mine', 4, false] },
                    other: { '/n' => ['/n', 2, false], '/mine' => ['/mine', 8, false] }, nothing: {} }[content]
                end
        mismatch = added && (added.any? { |n, v| before[n] && before[n] != v } ||
                             # the numerics of the other format are not the same types
                             (format == :record && start != :empty && content == :same) || (format == :record && start == :more && content == :good))
        defined = added && added.any? { |n, _| before[n] }
        what = "#{content} #{format} file f#{ext}, kind #{kind.inspect}, merge #{merge.inspect}, registry #{start}, #{way}"
        error = nil
        begin
          Dir.chdir(d) if name != f
          if way.to_s.start_with?('class') then r = Typelib::Registry.import(name, *args, **opts)
          else r.import(name, *args, **opts) end
        rescue StandardError, NoMemoryError => error
        ensure
          Dir.chdir(here)
        end
        MC.step
        now = Files.types(r)
        if reader == 'tlb' && format == :tlb && merge == false && !error && ((added && defined) || (content == :field && before['/ns/C']))
          added ||= {}
          # keeps the definitions it has, whatever those of the file are
          MC.check(now == added.merge(before), 'types', "#{what}: #{now} instead of #{added.merge(before)}")
          MC.fail('merge-false-tlb', "#{what}: the types that the registry defines are accepted")
        elsif !added || mismatch || (merge == false && defined)
          MC.check(error, 'accepted', "#{what}: no exception")
          MC.check(!(NoMethodError === error) && !(NameError === error) && !(TypeError === error) && !(ArgumentError === error), 'error', "#{what}: #{error.class} #{error.message}")
          MC.check(now.slice(*before.keys) == before, 'failed-modified', "#{what}: #{now} instead of #{before}")
          # nothing is added before everything is read
          MC.check(Files.snap(r) == xml, 'failed-modified', "#{what}: the registry is modified") if merge != false && !mismatch
        else
          MC.check(!error, 'refused', "#{what}: #{error && "#{error.class} #{error.message} #{error.backtrace.first}"}")
          MC.check(now == before.merge(added), 'types', "#{what}: #{now} instead of #{before.merge(added)}")
          MC.check(r.get('/op').metadata.get('k') == ['v'], 'metadata', "#{what}") if content == :metadata
          MC.check(r.get('/mine').metadata.get('k') == ['mine'], 'metadata', "#{what}") if start == :more
        end
        MC.check(MC.record == 0, 'leak', 'the importer remains')
        MC.state([format, content, ext, kind, merge, start, way].inspect)
      end
    end

    # what is exported
    def files_export
      what = MC.pick(%i{record binary tlb to_xml idl unknown nil_kind runtime import typelib logic memory}, :what)
      steps = Array.new(MC.choose(MC.thorough? ? 5 : 4, :steps)) { MC.pick(%i{numeric compound alias enum array container opaque}, :step) }
      MC.prune if steps.uniq.size != steps.size
      klass = MC.pick([Typelib::Registry, Typelib::CXXRegistry], :class)
      MC.unit
      MC.record
      std = Typelib::Registry.new.then { |x| Typelib::Registry.add_standard_cxx_types(x); Files.types(x) }
      r = klass.new
      MC.check(Files.types(r) == (klass == Typelib::CXXRegistry ? std : {}), 'standard', "a new #{klass} has #{(Files.types(r).to_a - std.to_a).inspect}, and not #{(std.to_a - Files.types(r).to_a).inspect}") unless MC.choose(1, :x) == 1
      base = '/double'
      r.create_numeric(base, 8, :float) unless r.include?(base)
      steps.each do |s|
        case s
        when :numeric then r.create_numeric('/ns/n', 4, :uint)
        when :compound then r.create_compound('/ns/C', 16) { |c| c.add('a', base, 8) }
        when :alias then r.alias('/ns/alias', base)
        when :enum then r.create_enum('/ns/E') { |e| e.add('EA', 1); e.add('EB', 3) }
        when :array then r.create_array(base, 3)
        when :container then r.create_container('/std/vector', base)
        when :opaque then r.create_opaque('/ns/O', 0)
        end
      end
      before = Files.types(r)
      name = "#{what} of a #{klass} with #{steps}"
      error = text = nil
      begin
        text = case what
               when :record then r.export('mc-record')
               when :binary then r.export('mc-record', binary: true)
               when :tlb then r.export('tlb')
               when :to_xml then r.to_xml
               when :idl then r.export('idl', opaque_as_any: true)
               when :unknown then r.export('unknown')
               when :nil_kind then r.export(nil)
               else r.export('mc-record', throw: what)
               end
      rescue StandardError, NoMemoryError => error
      end
      MC.step
      case what
      when :record, :binary
        saved = before.reject { |n, (t, _, _)| n.end_with?(']') || (n.end_with?('>') && n != t) } # these are built from their names when needed
        lines = saved.map { |n, (t, _, _)| n == t ? "#{n}\n" : "#{n}=#{t}\n" }.sort.join
        MC.check(!error, 'refused', "#{name}: #{error}")
        head, *rest = text.b.lines
        MC.check(head == (what == :binary ? "{6:binary=4:true;}\n" : "{}\n"), 'options', "#{name}: #{head}")
        if what == :binary
          MC.check(rest.shift == "a\0b\xff\n".b, 'binary', "#{name}: #{text.b.inspect}")
        end
        MC.check(rest.sort.join == lines.b, 'types', "#{name}: #{rest.sort.join} instead of #{lines}")
      when :tlb, :to_xml
        MC.check(!error, 'refused', "#{name}: #{error}")
        other = Typelib::Registry.from_xml(text)
        saved = before.reject { |n, _| n.end_with?(']') }
        others = Files.types(other)
        saved.delete_if { |n, (t, _, _)| n.end_with?('>') && n != t && !others.has_key?(n) }
        MC.check(Files.types(other) == saved, 'types', "#{name}: #{Files.types(other)} instead of #{saved}")
        MC.check(saved.keys.all? { |n| other.get(n) == r.get(n) }, 'types', "#{name}: types differ after from_xml")
        Dir.mktmpdir('mc-files') do |d|
          File.write("#{d}/x.tlb", text)
          MC.check(Files.snap(Typelib::Registry.import("#{d}/x.tlb")) == Files.snap(other), 'types', "#{name}: import is not from_xml")
        end
        copy = r.dup
        MC.check(copy.class == klass && Files.types(copy) == before, 'types', "#{name}: the copy is a #{copy.class} with #{Files.types(copy)}")
      when :idl
        MC.check(error || (String === text && (!steps.include?(:enum) || text.include?('EB'))), 'types', "#{name}: #{text}")
      else
        MC.check(error, 'accepted', "#{name}: #{text.inspect}")
        MC.check(!(NoMethodError === error) && !(NameError === error), 'error', "#{name}: #{error.class} #{error.message}")
      end
      MC.check(Files.types(r) == before, 'modified', "#{name}: #{Files.types(r)} instead of #{before}")
      MC.check(MC.record == 0, 'leak', 'the exporter remains')
      MC.state([what, steps, klass.name].inspect)
    end

    # which plugins a registry loads
    def files_plugins
      dirs = Array.new(MC.choose(3, :directories) + 1) { MC.pick(%i{named others both missing none wrong}, :directory) }
      MC.prune if dirs.count(:wrong) > 1
      again = MC.pick(%i{no same other forced}, :again)
      MC.unit
      env = ENV['TYPELIB_RUBY_PLUGIN_PATH']
      err = $stderr.dup
      root = File.realpath(Dir.mktmpdir('mc-files'))
      begin
        $stderr.reopen(File::NULL)
        $mc_plugins = []
        want = []
        paths = dirs.each_with_index.map do |k, i|
          d = "#{root}/d#{i}"
          Dir.mkdir(d) unless k == :missing
          write = -> (n, text = '') { File.write("#{d}/#{n}", "#{text}\n$mc_plugins << '#{i}/#{n}'\n") }
          case k
          when :named then write['typelib_plugin.rb']; want << "#{i}/typelib_plugin.rb"
          when :others then write['a.rb']; write['b.rb']; write['c.txt']; want << "#{i}/a.rb" << "#{i}/b.rb"
          when :both then write['typelib_plugin.rb']; write['a.rb']; want << "#{i}/typelib_plugin.rb"
          when :wrong then write['typelib_plugin.rb', 'raise "no"']
          end
          d
        end
        ENV['TYPELIB_RUBY_PLUGIN_PATH'] = paths.join(':')
        error = nil
        begin Typelib.load_typelib_plugins(force: true)
        rescue RuntimeError => error
        end
        MC.step
        what = "plugins in #{dirs}"
        if (w = dirs.index(:wrong))
          MC.check(error, 'accepted', "#{what}: no exception")
          want = want.select { |x| x.to_i < w }
        else
          MC.check(!error, 'refused', "#{what}: #{error}")
        end
        MC.check($mc_plugins.sort == want.sort, 'plugins', "#{what}: #{$mc_plugins} instead of #{want}")
        unless error
          $mc_plugins.clear
          case again
          when :same then Typelib.load_typelib_plugins
          when :forced then Typelib.load_typelib_plugins(force: true)
          when :other
            Dir.mkdir("#{root}/z"); File.write("#{root}/z/typelib_plugin.rb", "$mc_plugins << 'z'")
            ENV['TYPELIB_RUBY_PLUGIN_PATH'] += ":#{root}/z"
            Typelib.load_typelib_plugins(force: true)
          end
          MC.check($mc_plugins == (again == :other ? ['z'] : []), 'plugins', "#{what}, then #{again}: #{$mc_plugins}")
        end
        MC.state([dirs, again].inspect)
      ensure
        $stderr.reopen(err); err.close
        ENV['TYPELIB_RUBY_PLUGIN_PATH'] = env
        $LOADED_FEATURES.delete_if { |f| f.start_with?(root) }
        FileUtils.remove_entry(root)
      end
    end
  end
end
