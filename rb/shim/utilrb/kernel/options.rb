# Stand-in for utilrb's option handling
module Kernel
    def self.filter_options(options, spec)
        options = options.to_hash.transform_keys(&:to_sym)
        known, unknown = options.partition { |k, _| spec.has_key?(k) }.map(&:to_h)
        [spec.reject { |_, v| v.nil? }.merge(known), unknown]
    end
    def self.validate_options(options, spec)
        known, unknown = filter_options(options, spec)
        raise ArgumentError, "unknown options #{unknown.keys.join(", ")}" unless unknown.empty?
        known
    end
end
