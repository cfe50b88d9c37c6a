#!/usr/bin/env python3
"""Makes and confirms planted bugs.

    plant.py make SPEC.py [id...]   writes seeded/<id>/ from a specification
    plant.py confirm [id...]        patch applies, builds, passes the tests, demo tells
    plant.py check [id...]          runs the check of the property on the patched tree

Works in a scratch clone of /repo ($PLANT, default /tmp/s/repo) with scripts that
are copies of /opt/vp/{build,test,common}.sh for this clone. Nothing is done to
/repo. The checks never use this file nor seeded/.
"""
import json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT", "/tmp/s")
R = S + "/repo"
SEEDED = V + "/seeded"

DEMO_SH = r'''#!/bin/bash
# cwd: the repository, built. Exit 0 if the property holds on the example.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
B=$R/_build
T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
export TYPELIB_PLUGIN_PATH=$B/lang/csupport:$B/lang/tlb:$B/lang/idl
g++ -std=c++11 -w -g -I"$R" -I/usr/include/libxml2 "$D/demo.cc" -o "$T/demo" \
    -L"$B/typelib" -L"$B/lang/csupport" -L"$B/lang/tlb" -L"$B/lang/idl" \
    -ltypeLib -ltypeLang_cSupport -ltypeLang_tlb -ltypeLang_idl \
    -Wl,-rpath,"$B/typelib:$B/lang/csupport:$B/lang/tlb:$B/lang/idl" \
    -lxml2 -lboost_system -lboost_filesystem -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''

PRELUDE = r'''#include <typelib/typemodel.hh>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
#include <typelib/typedisplay.hh>
#include <typelib/memory_layout.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/endianness.hh>
#include <typelib/csvoutput.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/utilmm/configset.hh>
#include <lang/csupport/containers.hh>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <iostream>
#include <new>
using namespace Typelib;
using namespace std;
static int failures = 0;
#define CHECK(x) do { if (!(x)) { ++failures; printf("line %d: %s\n", __LINE__, #x); } } while(0)
#define THROWS(x) do { bool t_ = false; try { x; } catch(std::exception&) { t_ = true; } if (!t_) { ++failures; printf("line %d: accepted: %s\n", __LINE__, #x); } } while(0)
static long live = 0;
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); ++live; return p; }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --live; free(p); } }
struct Mem
{
    Type const& t; std::vector<uint8_t> m;
    Mem(Type const& t) : t(t), m(t.getSize() + 8) { Typelib::init(value()); }
    ~Mem() { Typelib::destroy(value()); }
    Value value() { return Value(&m[0], t); }
};
static string tlb(Registry& r) { return PluginManager::save("tlb", r); }
'''

DEMO_RUBY_SH = r'''#!/bin/bash
# cwd: the repository, built. Exit 0 if the property holds on the example.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
B=$R/_build
T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
# the gems that the bindings require are replaced by definitions in demo.rb
for f in backports/2.4.0/{float,true_class,nil_class,false_class,fixnum}/dup facets/string/{snakecase,camelcase} \
    utilrb/object/address utilrb/kernel/options utilrb/module/attr_predicate utilrb/module/const_defined_here_p utilrb/logger; do
    mkdir -p "$T/gems/$(dirname $f)" && touch "$T/gems/$f.rb"
done
export TYPELIB_PLUGIN_PATH=$B/lang/csupport:$B/lang/tlb:$B/lang/idl
export LD_LIBRARY_PATH=$B/typelib:$B/lang/csupport
cd "$T" && timeout 120 ruby --disable=gems -W0 -I "$T/gems" -I "$R/bindings/ruby/lib" -I "$B/bindings/ruby" "$D/demo.rb"
'''

PRELUDE_RUBY = r'''require 'logger'
require 'set'
module Gem; def self.find_files(*) [] end end
class String
    def snakecase; gsub(/([A-Z]+)([A-Z][a-z])/, '\1_\2').gsub(/([a-z\d])([A-Z])/, '\1_\2').tr('-', '_').gsub(/\s/, '_').gsub(/__+/, '_').downcase end
    def camelcase(*) split('_').map { |w| w.empty? ? w : w[0].upcase + w[1..-1] }.join end
end
class Object; def address; object_id end unless method_defined?(:address) end
module Kernel
    def self.filter_options(options, spec)
        options = options.to_hash.transform_keys(&:to_sym)
        known, unknown = options.partition { |k, _| spec.has_key?(k) }.map(&:to_h)
        [spec.reject { |_, v| v.nil? }.merge(known), unknown]
    end
    def self.validate_options(options, spec)
        known, unknown = filter_options(options, spec)
        raise ArgumentError, "unknown options #{unknown.keys.join(", ")}" unless unknown.empty?
        known
    end
end
class Module
    def attr_predicate(name, writable = false)
        attr = name.to_s.sub(/\?$/, '')
        define_method("#{attr}?") { !!instance_variable_get("@#{attr}") }
        attr_writer(attr) if writable
    end
    def const_defined_here?(name); const_defined?(name, false) end
end
class Logger
    def self.Root(progname, level)
        logger = Logger.new($stderr)
        logger.level = level
        Module.new do
            define_method(:logger) { logger }
            [:debug, :info, :warn, :error, :fatal].each { |name| define_method(name) { |*args, &block| logger.send(name, *args, &block) } }
        end
    end
end
require 'typelib'
Typelib.logger.level = Logger::FATAL
$failures = 0
def check(what) r = yield; r or ($failures += 1; puts "wrong: #{what}")
rescue Exception => e; $failures += 1; puts "#{what}: #{e.class} #{e.message}" end
def refused(what) yield; $failures += 1; puts "accepted: #{what}"
rescue StandardError; end
R = Typelib::Registry.new(false)
Typelib::Registry.add_standard_cxx_types(R)
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def reset():
    sh("git -C %s checkout -q -- . && git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (R, R, R))

def build():
    r = sh("bash %s/build.sh" % S)
    return r.returncode == 0, r.stdout[-3000:] + r.stderr[-2000:]

def tests():
    sh("bash %s/test.sh %s/o.json" % (S, S))
    d = json.load(open(S + "/o.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - set(d["passed"]))

def demo(i):
    T = S + "/demo"
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    for f in os.listdir(SEEDED + "/" + i):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(SEEDED + "/" + i + "/" + f, T)
    r = sh("bash %s/demo.sh" % T, cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def original_lines(i):
    """The lines the patch removes are those of the first commit of /repo"""
    base = sh("git -C %s rev-list --max-parents=0 HEAD" % R).stdout.strip()
    cur, ok, n = None, False, 0
    for l in open(SEEDED + "/" + i + "/patch.diff"):
        m = re.match(r"--- a/(.*)", l)
        if m: cur = m.group(1).strip(); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if cur is None or l.startswith("+"): continue
        if l.startswith("-"):
            b = sh("git -C %s blame -l -s -L%d,%d HEAD -- %s" % (R, n, n, cur)).stdout.lstrip("^")
            if base.startswith(b.split()[0].lstrip("^")[:30]): ok = True
        n += 1
    return ok

def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        i = s["id"]
        if ids and i not in ids: continue
        reset()
        for f, old, new in s["edits"]:
            p = R + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "edit matches", t.count(old), "times in", f, repr(old[:50])); break
            open(p, "w").write(t.replace(old, new))
        else:
            d = SEEDED + "/" + i
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            if "ruby" in s:
                open(d + "/demo.sh", "w").write(DEMO_RUBY_SH)
                open(d + "/demo.rb", "w").write(PRELUDE_RUBY + s.get("pre", "") + "\n" + s["ruby"] + "\nexit($failures == 0)\n")
            else:
              open(d + "/demo.sh", "w").write(DEMO_SH)
              open(d + "/demo.cc", "w").write(PRELUDE + s.get("pre", "") + "\nint main()\n{\n" + s["demo"] + "\n    return failures ? 1 : 0;\n}\n")
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
    reset()

def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        return make(args[0], args[1:])
    ids = args or sorted(os.listdir(SEEDED))
    if cmd == "confirm":
        reset(); build()
        clean = {}
        for i in ids: clean[i] = demo(i)
        for i in ids:
            reset()
            d = SEEDED + "/" + i
            if clean[i][0] != 0:
                print(i, "BAD: demo fails on the unchanged tree", clean[i][1][:500]); continue
            if sh("git -C %s apply %s/patch.diff" % (R, d)).returncode: print(i, "BAD: does not apply"); continue
            ok, log = build()
            if not ok: print(i, "BAD: does not build", log[-800:]); continue
            failed = tests()
            if failed: print(i, "BAD: fails", failed); continue
            rc, out = demo(i)
            if rc == 0 or rc == 3: print(i, "BAD: demo gives %d with the patch" % rc, out); continue
            reset()
            print(i, "ok" if original_lines(i) else "BAD: no original line changed", out.strip().split("\n")[-1][:100], flush=True)
        reset(); build()
    elif cmd == "check":
        for i in ids:
            reset()
            d = SEEDED + "/" + i
            p = json.load(open(d + "/meta.json"))["property"]
            sh("git -C %s apply %s/patch.diff" % (R, d))
            t = time.time()
            env = dict(os.environ, MC_REPO=R, MC_BUILD=S + "/build")
            r = subprocess.run(["timeout", "900", "python3", V + "/check.py", p], capture_output=True, text=True, env=env)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + p + " ")]
            k = [l.strip() for l in r.stdout.split("\n") if "key=" in l]
            print("%-28s %s %-7s rc=%d %3ds %s" % (i, p, "CAUGHT" if v and r.returncode == 1 else "MISSED",
                r.returncode, time.time() - t, (k or [""])[0][:110]), flush=True)
        reset()

main()
