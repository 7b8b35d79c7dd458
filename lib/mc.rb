# Exhaustive exploration of choice trees for the Ruby checks (one worker process per shard and scenario).
require 'digest'
require 'json'
module MC
  class Violation < StandardError; end
  class Path
    attr_reader :choices, :notes
    def initialize(prefix, w) @prefix, @w = prefix, w; @choices, @arity, @notes, @planned = [], [], [], false end
    attr_reader :arity
    def choose(n)
      i = @choices.size; c = i < @prefix.size ? @prefix[i] : 0
      @choices << c; @arity << n; c
    end
    def pick(list) list[choose(list.size)] end
    # called once all distributing choices are made: is this case for this worker?
    def mine?
      return true if @planned
      @planned = true; @w.plans += 1
      m = @w.replay || (@w.plans - 1) % @w.shards == @w.shard
      if m then @w.executions += 1; @w.checkpoint(self) end
      m
    end
    def note(s) @notes << s; @w.checkpoint(self) end
    def step(n = 1) @w.transitions += n end
    def eval(n = 1) @w.evaluations += n end
    def state(x) @w.states[Digest::MD5.digest(x)[0, 8].unpack1('Q')] = true end
    def fail(msg) raise Violation, msg end
    def check(c, msg = nil) c or raise Violation, (msg || yield) end
    def thorough?() @w.thorough end
    def scratch() @w.scratch end
  end
  class Worker
    attr_accessor :plans, :executions, :transitions, :evaluations, :states
    attr_reader :shard, :shards, :thorough, :scratch, :replay
    def initialize(a)
      @shard, @shards, @thorough, @scratch, @replay = a['shard'], a['shards'], a['tier'] == 'thorough', a['scratch'], a['replay']
      @plans = @executions = @transitions = @evaluations = 0; @states = {}; @case = a['case'] && File.open(a['case'], 'w'); @samples = []; @deadline = Time.now + a['budget']
    end
    def checkpoint(p)
      return unless @case
      @case.rewind; @case.truncate(0); @case.write(JSON.dump([p.choices, p.notes.join])); @case.flush
    end
    def explore(body)
      prefix = @replay || []; complete = true
      loop do
        p = Path.new(prefix, self)
        begin
          body.call(p)
        rescue Violation => e
          return result(complete).merge(violation: { choices: p.choices, notes: p.notes.join, what: e.message })
        rescue StandardError, NoMemoryError, NotImplementedError, SystemStackError => e
          return result(complete).merge(violation: { choices: p.choices, notes: p.notes.join, what: "#{e.class}: #{e.message.lines.first.to_s.strip} at #{(e.backtrace || []).first(4).map { |l| l.sub(%r{.*/(?=[^/]+/[^/]+$)}, '') }.join(' < ')}" })
        end
        @samples << p.notes.join if @samples.size < 2 && p.notes.any?
        break if @replay
        c, a = p.choices, p.arity
        while c.any? && c[-1] + 1 >= a[-1] do c.pop; a.pop end
        break if c.empty?
        c[-1] += 1; prefix = c
        if Time.now > @deadline then complete = false; break end
      end
      result(complete)
    end
    def result(complete) { plans: @plans, executions: @executions, transitions: @transitions, evaluations: @evaluations, states: @states.keys, samples: @samples, complete: complete } end
  end
  # scenarios: [[name, bounds, lambda]]
  def self.run(rule, scenarios)
    a = JSON.parse(ARGV[0])
    if a['list'] then puts JSON.dump(rule: rule, scenarios: scenarios.map { |s| { name: s[0], bounds: s[1] } }); return end
    s = scenarios.find { |x| x[0] == a['scenario'] }
    r = Worker.new(a).explore(s[2])
    File.write(a['out'], JSON.dump(r))
  end
end
