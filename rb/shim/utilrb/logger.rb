require 'logger'
# Stand-in for utilrb's Logger::Root
class Logger
    def self.Root(progname, level)
        logger = Logger.new($stderr)
        logger.level = level
        logger.progname = progname
        Module.new do
            define_method(:logger) { logger }
            [:debug, :info, :warn, :error, :fatal].each do |name|
                define_method(name) { |*args, &block| logger.send(name, *args, &block) }
            end
        end
    end
end
