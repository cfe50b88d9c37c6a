# Stand-in for utilrb's const_defined_here?
class Module
    def const_defined_here?(name); const_defined?(name, false) end
end
