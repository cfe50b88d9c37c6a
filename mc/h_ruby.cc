// Properties of the Ruby bindings (C29 to C33). The interpreter is embedded:
// the bodies are written in Ruby (rb/*.rb), with the choice points, the verdicts
// and what they need to know about the C++ side provided by the module MC below.
#include "mc.hh"
#include <ruby.h>
#include <ruby/encoding.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

using namespace std;

extern "C" void* __libc_stack_end;
void twin_init(VALUE);
void recorder_init(VALUE);

namespace
{
    mc::Ctx* C;
    VALUE mMC, eSkip, ePrune, eFailure;
    string failure_key, failure_msg;

    string str(VALUE v) { v = rb_obj_as_string(v); return string(RSTRING_PTR(v), RSTRING_LEN(v)); }

    VALUE m_choose(VALUE, VALUE n, VALUE what) { return INT2NUM(C->choose(NUM2INT(n), rb_id2name(SYM2ID(what)))); }
    VALUE m_unit(VALUE)
    {
        bool skip = false;
        try { C->unit(); } catch (mc::Skip const&) { skip = true; }
        if (skip) rb_exc_raise(rb_exc_new_cstr(eSkip, "skip"));
        return Qnil;
    }
    VALUE m_prune(VALUE) { rb_exc_raise(rb_exc_new_cstr(ePrune, "prune")); return Qnil; }
    VALUE m_step(VALUE) { C->step(); return Qnil; }
    VALUE m_state(VALUE, VALUE s) { C->state(str(s)); return Qnil; }
    VALUE m_count(VALUE, VALUE s) { C->count(rb_id2name(SYM2ID(s))); return Qnil; }
    VALUE m_log(VALUE, VALUE s) { if (C->verbose) C->log("%s", str(s).c_str()); return Qnil; }
    VALUE m_thorough(VALUE) { return C->thorough ? Qtrue : Qfalse; }
    VALUE m_fail(VALUE, VALUE key, VALUE msg)
    {
        failure_key = str(key); failure_msg = str(msg);
        rb_exc_raise(rb_exc_new_cstr(eFailure, failure_key.c_str()));
        return Qnil;
    }
    VALUE m_live(VALUE) { return LONG2NUM(mc::live_allocs); }

    // The interpreter's cache for calls from C, which has 1023 entries, refers
    // to the classes of the receivers: fill it with others
    VALUE nothing(VALUE) { return Qnil; }
    VALUE m_evict(VALUE self)
    {
        static vector<ID> ids;
        static VALUE klass;
        if (ids.empty()) {
            klass = rb_define_class_under(self, "Evict", rb_cObject);
            for (int i = 0; i < 2048; ++i) {
                ids.push_back(rb_intern(("evict" + to_string(i)).c_str()));
                rb_define_method_id(klass, ids.back(), RUBY_METHOD_FUNC(nothing), 0);
            }
        }
        VALUE o = rb_obj_alloc(klass);
        for (ID id: ids) rb_funcall(o, id, 0);
        return Qnil;
    }
    VALUE m_peek(VALUE, VALUE address, VALUE size) { return rb_str_new(reinterpret_cast<char const*>(NUM2ULL(address)), NUM2ULL(size)); }
    VALUE m_poke(VALUE, VALUE address, VALUE bytes)
    { memcpy(reinterpret_cast<char*>(NUM2ULL(address)), RSTRING_PTR(bytes), RSTRING_LEN(bytes)); return Qnil; }

    void start()
    {
        static bool done = false;
        if (done) return;
        done = true;
        ruby_init_stack(reinterpret_cast<VALUE*>(__libc_stack_end));
        int argc = 1; char name[] = "h_ruby"; char* argv_[] = { name, 0 }; char** argv = argv_;
        ruby_sysinit(&argc, &argv);
        if (ruby_setup()) { fprintf(stderr, "cannot start ruby\n"); abort(); }
        char e[] = "-e"; char script[] = "";
        char disable[] = "--disable=gems,did_you_mean,error_highlight,syntax_suggest";
        char* opts[] = { name, disable, e, script, 0 };
        ruby_process_options(4, opts);
        mMC = rb_define_module("MC");
        eSkip = rb_define_class_under(mMC, "Skip", rb_eException);
        ePrune = rb_define_class_under(mMC, "Prune", rb_eException);
        eFailure = rb_define_class_under(mMC, "Failure", rb_eException);
        rb_define_module_function(mMC, "choose", RUBY_METHOD_FUNC(m_choose), 2);
        rb_define_module_function(mMC, "unit", RUBY_METHOD_FUNC(m_unit), 0);
        rb_define_module_function(mMC, "prune", RUBY_METHOD_FUNC(m_prune), 0);
        rb_define_module_function(mMC, "step", RUBY_METHOD_FUNC(m_step), 0);
        rb_define_module_function(mMC, "state", RUBY_METHOD_FUNC(m_state), 1);
        rb_define_module_function(mMC, "count", RUBY_METHOD_FUNC(m_count), 1);
        rb_define_module_function(mMC, "log", RUBY_METHOD_FUNC(m_log), 1);
        rb_define_module_function(mMC, "thorough?", RUBY_METHOD_FUNC(m_thorough), 0);
        rb_define_module_function(mMC, "fail", RUBY_METHOD_FUNC(m_fail), 2);
        rb_define_module_function(mMC, "live", RUBY_METHOD_FUNC(m_live), 0);
        rb_define_module_function(mMC, "evict", RUBY_METHOD_FUNC(m_evict), 0);
        rb_define_module_function(mMC, "peek", RUBY_METHOD_FUNC(m_peek), 2);
        rb_define_module_function(mMC, "poke", RUBY_METHOD_FUNC(m_poke), 2);
        twin_init(mMC);
        recorder_init(mMC);
        string boot = string("$LOAD_PATH.unshift(*ENV['MC_RUBYLIB'].split(':')); require 'mc'");
        int state = 0;
        rb_eval_string_protect(boot.c_str(), &state);
        if (state)
        {
            VALUE err = rb_errinfo();
            fprintf(stderr, "cannot load: %s\n%s\n", str(err).c_str(), str(rb_funcall(rb_funcall(err, rb_intern("backtrace"), 0), rb_intern("join"), 1, rb_str_new_cstr("\n"))).c_str());
            abort();
        }
    }

    VALUE call(VALUE arg)
    {
        string const& name = *reinterpret_cast<string*>(arg);
        // a C++ exception that gets here has crossed frames of the interpreter, which cannot go on
        try { return rb_funcall(rb_const_get(rb_cObject, rb_intern("Bodies")), rb_intern(name.c_str()), 0); }
        catch (std::exception const& e) { fprintf(stderr, "C++ exception through the Ruby interpreter: %s\n", e.what()); abort(); }
        catch (...) { fprintf(stderr, "C++ exception through the Ruby interpreter\n"); abort(); }
    }

    void run(mc::Ctx& c, string const& name)
    {
        start();
        C = &c;
        int state = 0;
        rb_protect(call, reinterpret_cast<VALUE>(&name), &state);
        if (!state) return;
        VALUE err = rb_errinfo();
        rb_set_errinfo(Qnil);
        VALUE klass = rb_obj_class(err);
        if (klass == eSkip) throw mc::Skip();
        if (klass == ePrune) throw mc::Prune();
        if (klass == eFailure) mc::fail(failure_key, failure_msg);
        string where;
        VALUE bt = rb_funcall(err, rb_intern("backtrace"), 0);
        if (!NIL_P(bt))
            for (int i = 0; i < 12 && i < RARRAY_LEN(bt); ++i) where += "\n  " + str(rb_ary_entry(bt, i));
        mc::fail("exception-" + str(klass), str(err) + where);
    }
}

// the Ruby side of a memory error
extern "C" void __asan_on_error() { if (C) rb_backtrace(); }

#define RUBY_BODY(prop, group, name) MC_BODY(prop, group) { run(c, name); }
RUBY_BODY("C29", "read", "read")
RUBY_BODY("C29", "write", "write")
RUBY_BODY("C29", "refuse", "refuse")
RUBY_BODY("C29", "containers", "containers")
RUBY_BODY("C29", "whole", "whole")
RUBY_BODY("C29", "texts", "texts")
RUBY_BODY("C29", "frozen", "frozen")
RUBY_BODY("C29", "accessors", "accessors")
RUBY_BODY("C30", "wrappers", "wrappers")
RUBY_BODY("C30", "partial", "partial")
RUBY_BODY("C30", "alive", "alive")
RUBY_BODY("C30", "released", "released")
RUBY_BODY("C30", "sweep", "sweep")
RUBY_BODY("C30", "owners", "owners")
RUBY_BODY("C33", "converted", "converted")
RUBY_BODY("C33", "specialized", "specialized")
RUBY_BODY("C34", "fields", "cxx_fields")
RUBY_BODY("C34", "records", "cxx_records")
RUBY_BODY("C34", "templates", "cxx_templates")
RUBY_BODY("C34", "documented", "cxx_documented")
RUBY_BODY("C34", "named", "cxx_named")
RUBY_BODY("C34", "names", "cxx_names")
RUBY_BODY("C34", "loaded", "cxx_loaded")
RUBY_BODY("C34", "invoked", "cxx_invoked")
RUBY_BODY("C34", "opaques", "cxx_opaques")
RUBY_BODY("C34", "homonyms", "cxx_homonyms")
RUBY_BODY("C34", "clang", "cxx_clang")
RUBY_BODY("C35", "options", "files_options")
RUBY_BODY("C35", "import", "files_import")
RUBY_BODY("C35", "export", "files_export")
RUBY_BODY("C35", "plugins", "files_plugins")
RUBY_BODY("C31", "operations", "operations")
RUBY_BODY("C31", "refused", "refused")
RUBY_BODY("C32", "exported", "exported")
RUBY_BODY("C32", "metadata", "metadata")
RUBY_BODY("C31", "builders", "builders")
RUBY_BODY("C32", "names", "names")
