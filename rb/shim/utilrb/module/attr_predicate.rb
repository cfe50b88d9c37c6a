# Stand-in for utilrb's attr_predicate
class Module
    def attr_predicate(name, writable = false)
        attr = name.to_s.sub(/\?$/, '')
        define_method("#{attr}?") { !!instance_variable_get("@#{attr}") }
        attr_writer(attr) if writable
    end
end
