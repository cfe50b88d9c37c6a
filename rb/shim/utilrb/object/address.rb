# Stand-in for the part of utilrb that the bindings use: the gem is not installed
class Object
    def address; object_id end unless method_defined?(:address)
end
