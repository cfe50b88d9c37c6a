# Stand-in for facets' String#camelcase
class String
    def camelcase(*)
        split('_').map { |w| w.empty? ? w : w[0].upcase + w[1..-1] }.join
    end
end
