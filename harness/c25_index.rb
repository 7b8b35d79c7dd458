# C25: the Ruby Index object behaves like an (optionally keyed) collection of documents.
require 'mc'
require 'fileutils'
require 'ferret'
include Ferret
WS = Analysis::WhiteSpaceAnalyzer
D = [{ id: '1', c: 'x y' }, { id: '2', c: 'y' }, { id: '1', c: 'z' }]
class Model
  attr_reader :docs
  def initialize(key) @key, @docs = key, [] end
  def copy() m = Model.new(@key); m.docs.replace(@docs.map(&:dup)); m end
  def self.words(d, f) d[f].to_s.split(' ') end
  def has(d, f, w) Model.words(d, f).include?(w) end
  def add(d)
    d = { c: d } if d.is_a?(String)
    if @key then ks = [@key].flatten; @docs.reject! { |o| ks.all? { |k| has(o, k, d[k].to_s) } } end
    @docs << d
  end
  def append(d) @docs << d end
  def delete_id(*ids) @docs.reject! { |d| ids.any? { |i| has(d, :id, i) } } end
  def delete_at(i) @docs.delete_at(i) end
  def matching(q) f, w = q.split(':'); f == '*' ? @docs.dup : @docs.select { |d| has(d, f.to_sym, w) } end
end
PROBES = %w[id:1 id:2 id:5 c:x c:y c:z c:u c:q c:w c:nothing]
def hits(ix, q) r = []; ix.search_each(q, limit: :all) { |d, _| r << d }; r.sort end
def loaded(ix, n) d = ix[n]; d = d.load; h = {}; d.each { |k, v| h[k] = v }; h end
# everything a user can see equals the model
def full(p, ix, m, who)
  want = m.docs; p.step
  p.check(ix.size == want.size) { "#{who}: size #{ix.size}, expected #{want.size}" }
  got = []; ix.each { |d| h = {}; d.each { |k, v| h[k] = v }; got << h }
  p.check(got == want) { "#{who}: the documents are #{got.inspect}, expected #{want.inspect}" }
  all = hits(ix, Search::MatchAllQuery.new); p.check(all.size == want.size) { "#{who}: #{all.size} documents match everything, expected #{want.size}" }
  all.each_with_index { |n, i| p.check(loaded(ix, n) == want[i]) { "#{who}: document #{n} is #{loaded(ix, n).inspect}, expected #{want[i].inspect}" }; p.check(!ix.deleted?(n)) { "#{who}: document #{n} is deleted" } }
  PROBES.each { |q| got = hits(ix, q).map { |n| loaded(ix, n) }; p.check(got == m.matching(q)) { "#{who}: #{q} finds #{got.inspect}, expected #{m.matching(q).inspect}" } }
  t = ix.search('id:1 OR c:y', limit: 1).total_hits; w = (m.matching('id:1') | m.matching('c:y')).size; w = m.docs.count { |d| m.has(d, :id, '1') || m.has(d, :c, 'y') }
  p.check(t == w) { "#{who}: #{t} documents match 'id:1 OR c:y', expected #{w}" }
  %w[1 2 9].each { |i| d = ix[i]; d = d && d.load; x = m.matching("id:#{i}").first; p.check(x.nil? ? d.nil? : (d && d[:c] == x[:c] && d[:id] == x[:id])) { "#{who}: ['#{i}'] is #{d.inspect}, expected #{x.inspect}" } }
  s = ix.to_s; p.check(want.all? { |d| s.include?(d[:c].to_s) } && s.lines.count >= want.size) { "#{who}: to_s gives #{s.inspect}, expected #{want.inspect}" }
  p.check(ix.scan('id:1').to_a.size == m.matching('id:1').size) { "#{who}: scan of id:1 gives #{ix.scan('id:1').inspect}" }
  p.state(want.inspect)
end
class World
  attr_accessor :ix, :m, :dir, :path, :opts, :n
  def initialize(p, key, auto, fs)
    @p, @n = p, 0; @m = Model.new(key); @base = { key: key, auto_flush: auto, analyzer: WS.new, default_input_field: :c, lock_retry_time: 0.01 }
    if fs then @path = "#{p.scratch}/ix"; FileUtils.rm_rf(@path); Dir.mkdir(@path) else @dir = Store::RAMDirectory.new end
    @ix = open(true)
  end
  def open(create = false) o = @base.dup; o[:create] = create; if @path then o[:path] = @path else o[:dir] = @dir end; Index::Index.new(o) end
  def last() hits(@ix, Search::MatchAllQuery.new).last end
  def first() hits(@ix, Search::MatchAllQuery.new).first end
  def close() @ix.close rescue nil; @dir.close if @dir && !@path; FileUtils.rm_rf(@path) if @path end
end
def other() i = Index::Index.new(analyzer: WS.new); i << { id: '5', c: 'q' } << { id: '6', c: 'x' } rescue (i << { id: '6', c: 'x' }); i end
OPS = {
  'add 1' => lambda { |w| w.ix << D[0]; w.m.add(D[0]) },
  'add 2' => lambda { |w| w.ix << D[1]; w.m.add(D[1]) },
  "add 1'" => lambda { |w| w.ix.add_document(D[2]); w.m.add(D[2]) },
  'add string' => lambda { |w| w.ix << 'w x'; w.m.add('w x') },
  "delete '1'" => lambda { |w| w.ix.delete('1'); w.m.delete_id('1') },
  'delete :2' => lambda { |w| w.ix.delete(:"2"); w.m.delete_id('2') },
  'delete first' => lambda { |w| n = w.first or next; w.ix.delete(n); w.m.delete_at(0) },
  'delete last' => lambda { |w| n = w.last or next; w.ix.delete(n); w.m.delete_at(-1) },
  'delete [1,2]' => lambda { |w| w.ix.delete(%w[1 2]); w.m.delete_id('1', '2') },
  'delete [last,2]' => lambda { |w| n = w.last or next; w.ix.delete([n, '2']); w.m.delete_at(-1); w.m.delete_id('2') },
  'delete {2}' => lambda { |w| w.ix.delete({ '2' => 0 }); w.m.delete_id('2') },
  'query_delete c:x' => lambda { |w| w.ix.query_delete('c:x'); w.m.docs.reject! { |d| w.m.has(d, :c, 'x') } },
  "update '1'" => lambda { |w| d = { id: '1', c: 'u' }; w.ix.update('1', d); w.m.delete_id('1'); w.m.append(d) },
  'update last' => lambda { |w| n = w.last or next; d = { id: w.m.docs[-1][:id] || '', c: 'u u' }; d.delete(:id) if d[:id] == ''; w.ix.update(n, d); w.m.delete_at(-1); w.m.append(d) },
  'batch_update {1,2}' => lambda { |w| d = { '1' => { id: '1', c: 'u' }, '2' => { id: '2', c: 'x' } }; w.ix.batch_update(d); w.m.delete_id('1', '2'); d.values.each { |x| w.m.append(x) } },
  'batch_update [2]' => lambda { |w| d = [{ id: '2', c: 'u y' }]; w.ix.batch_update(d); w.m.delete_id('2'); d.each { |x| w.m.append(x) } },
  'query_update c:y' => lambda { |w| w.ix.query_update('c:y', { c: 'q' }); ch, rest = w.m.docs.partition { |d| w.m.has(d, :c, 'y') }; w.m.docs.replace(rest + order(w, ch).map { |d| d.merge(c: 'q') }) },
  'query_update id:1' => lambda { |w| w.ix.query_update('id:1', 'z'); ch, rest = w.m.docs.partition { |d| w.m.has(d, :id, '1') }; w.m.docs.replace(rest + order(w, ch).map { |d| d.merge(c: 'z') }) },
  'flush' => lambda { |w| w.ix.flush },
  'optimize' => lambda { |w| w.ix.optimize },
  'reopen' => lambda { |w| w.ix.close; w.ix = w.open },
  'size' => lambda { |w| s = w.ix.size; s == w.m.docs.size or raise MC::Violation, "size #{s}, expected #{w.m.docs.size}" },
  'search' => lambda { |w| s = w.ix.search('c:y').total_hits; e = w.m.matching('c:y').size; s == e or raise MC::Violation, "#{s} documents match c:y, expected #{e}" },
  "['1']" => lambda { |w| d = w.ix['1']; e = w.m.matching('id:1').first; (d && d.load)&.fetch(:c, nil) == (e && e[:c]) or raise MC::Violation, "['1'] is #{d && d.load.inspect}, expected #{e.inspect}" },
  'add_indexes' => lambda { |w| o = other; w.ix.add_indexes(o); o.close; w.m.append({ id: '5', c: 'q' }); w.m.append({ id: '6', c: 'x' }) },
  'writer' => lambda { |w| w.ix.writer << { id: '7', c: 'y' }; w.m.append({ id: '7', c: 'y' }) },
}
# documents are re-added in the order of the hits: by score and then by number; take it from the index when several match
def order(w, ch)
  return ch if ch.size < 2
  got = []; w.ix.each { |d| h = {}; d.each { |k, v| h[k] = v }; got << h }
  tail = got.last(ch.size); strip = lambda { |d| d.reject { |k, _| k == :c } }
  tail.map(&strip).sort_by(&:inspect) == ch.map(&strip).sort_by(&:inspect) or raise MC::Violation, "after the update the last documents are #{tail.inspect}, expected those of #{ch.inspect}"
  used = []; tail.map { |t| i = (0...ch.size).find { |j| !used.include?(j) && strip[ch[j]] == strip[t] }; used << i; ch[i] }
end
def walk(p, ops, depth, key, auto, fs)
  seq = (0...depth).map { p.choose(ops.size) }; p.mine? or return
  names = seq.map { |i| ops[i] }; p.note("[key #{key.inspect}#{auto ? ', auto_flush' : ''}, #{fs ? 'files' : 'RAM'}: #{names.join('; ')}] ")
  w = World.new(p, key, auto, fs)
  names.each { |n| OPS[n][w]; p.step }
  if auto && !names.include?('writer') then o = w.open; full(p, o, w.m, 'another object, with auto_flush'); o.close end     # nothing is left to be flushed
  full(p, w.ix, w.m, 'the index')
  w.ix.flush; o = w.open; full(p, o, w.m, 'another object after a flush'); o.close
  w.ix.close; w.ix = w.open; full(p, w.ix, w.m, 'the index opened again'); w.close; p.eval
end
KEYS = [nil, :id, [:id, :c]]
ALL = lambda { |p| key = p.pick(KEYS); auto = p.choose(2) == 1; fs = p.choose(2) == 1; walk(p, OPS.keys, p.thorough? ? 3 : 2, key, auto, fs) }
CORE = ['add 1', 'add 2', "add 1'", "delete '1'", 'delete last', 'query_delete c:x', "update '1'", 'query_update c:y', 'flush', 'size', 'search']
DEEP = lambda { |p| key = p.pick(KEYS); auto = p.choose(2) == 1; walk(p, CORE, p.thorough? ? 5 : 4, key, auto, false) }
# two objects on one directory: after A flushes, B sees everything (and may modify), and the other way round
TWO = lambda do |p|
  fs = p.choose(2) == 1; key = p.pick([nil, :id]); depth = p.thorough? ? 5 : 4
  acts = %w[add1 add1' add2 del1 dellast qdel update size search flush]; seq = (0...depth).map { p.choose(acts.size) }; who = (0...depth).map { p.choose(2) }
  next if who[0] == 1                       # by symmetry
  p.mine? or next
  p.note("[#{fs ? 'files' : 'RAM'}, key #{key.inspect}: #{seq.zip(who).map { |s, x| "#{'AB'[x]}.#{acts[s]}" }.join(' ')}] ")
  w = World.new(p, key, false, fs); ix = [w.ix, w.open]; owner = nil; seen = [0, 0]; m = w.m; base = m.copy     # base: content at the last flush
  seq.zip(who).each do |s, x|
    a = acts[s]; i = ix[x]
    if %w[add1 add1' add2 del1 dellast qdel update].include?(a)
      next if owner && owner != x           # somebody else has unflushed changes
      w.ix = i
      OPS[{ 'add1' => 'add 1', "add1'" => "add 1'", 'add2' => 'add 2', 'del1' => "delete '1'", 'dellast' => 'delete last', 'qdel' => 'query_delete c:x', 'update' => "update '1'" }[a]][w]; owner = x
    elsif a == 'flush' then i.flush; if owner == x || owner.nil? then owner = nil; base = m.copy end
    else
      got = a == 'size' ? i.size : hits(i, 'c:y').size; want = lambda { |mm| a == 'size' ? mm.docs.size : mm.matching('c:y').size }
      if owner.nil? || owner == x then p.check(got == want[m]) { "#{'AB'[x]}.#{a} gives #{got}, expected #{want[m]}" } end
    end
    p.step
  end
  ix[owner].flush if owner
  ix.each_with_index { |i, k| full(p, i, m, "object #{'AB'[k]} after the flush") }
  ix[1].close; w.ix = ix[0]; w.close; p.eval
end
# moving an index to a directory, merging several indexes, refusing to use a closed index
MISC = lambda do |p|
  k = p.choose(7); pre = (0...2).map { p.choose(5) }; post = p.choose(OPS.size); key = p.pick([nil, :id]); p.mine? or next
  names = pre.map { |i| ['add 1', 'add 2', "add 1'", "delete '1'", 'size'][i] }; pn = OPS.keys[post]
  p.note("[key #{key.inspect}, #{names.join('; ')}, then #{['persist to a path', 'persist to a directory', 'add two indexes', 'add a directory', 'add a reader', 'close', 'block form'][k]}, then #{pn}] ")
  w = World.new(p, key, false, k == 6); names.each { |n| OPS[n][w] }
  case k
  when 0, 1
    path = "#{p.scratch}/persist"; FileUtils.rm_rf(path); Dir.mkdir(path); d2 = Store::RAMDirectory.new
    w.ix.persist(k == 0 ? path : d2); full(p, w.ix, w.m, 'the moved index'); unless pn == 'reopen' then OPS[pn][w]; full(p, w.ix, w.m, 'the moved index') end
    w.ix.flush; o = Index::Index.new(k == 0 ? { path: path, analyzer: WS.new } : { dir: d2, analyzer: WS.new }); full(p, o, w.m, 'the new directory'); o.close; w.ix.close; FileUtils.rm_rf(path)
  when 2, 3, 4
    a = other; b = Index::Index.new(analyzer: WS.new); b << { id: '8', c: 'y x' }; src = k == 2 ? [a, b] : nil
    if k == 2 then w.ix.add_indexes([a, b]); [{ id: '5', c: 'q' }, { id: '6', c: 'x' }, { id: '8', c: 'y x' }].each { |d| w.m.append(d) }
    elsif k == 3 then dir = Store::RAMDirectory.new; o = Index::Index.new(dir: dir, analyzer: WS.new, create: true); o << { id: '8', c: 'y' }; o.close; w.ix.add_indexes(dir); w.m.append({ id: '8', c: 'y' })
    else b.flush; w.ix.add_indexes(b.reader); w.m.append({ id: '8', c: 'y x' }) end
    full(p, w.ix, w.m, 'the merged index'); OPS[pn][w]; full(p, w.ix, w.m, 'the merged index'); p.check(a.size == 2 && b.size == 1) { "merging changed its sources to #{a.size} and #{b.size} documents" }; a.close; b.close; w.close
  when 5
    o = w.ix; w.ix = nil; o.close; [lambda { o.size }, lambda { o << D[0] }, lambda { o.search('c:x') }, lambda { o.close }, lambda { o.delete('1') }, lambda { o.writer }, lambda { o.reader }, lambda { o.searcher }, lambda { o.optimize }].each_with_index { |f, i| begin; f.call; p.fail("call #{i} on a closed index succeeds"); rescue MC::Violation; raise; rescue StandardError; end }
    w.ix = w.open; full(p, w.ix, w.m, 'the index opened again'); OPS[pn][w]; full(p, w.ix, w.m, 'the index opened again'); w.close
  when 6
    w.ix.close; Index::Index.new(path: w.path, key: key, analyzer: WS.new, default_input_field: :c) { |x| w.ix = x; OPS[pn][w] unless pn == 'reopen' }
    w.ix = w.open; full(p, w.ix, w.m, 'the index after the block'); w.close
  end
  p.eval
end
# batch updates need an id in every document; bad arguments change nothing
BAD = lambda do |p|
  k = p.choose(6); pre = p.choose(3); p.mine? or next
  p.note("[bad call #{k}] "); w = World.new(p, nil, false, false); OPS['add 1'][w]; OPS['add 2'][w]; [nil, 'size', 'flush'][pre]&.then { |n| OPS[n][w] }
  calls = [lambda { w.ix.batch_update([{ id: '1', c: 'u' }, { c: 'no id' }]) }, lambda { w.ix.batch_update('x') }, lambda { w.ix.delete(1.5) }, lambda { w.ix.delete(nil) }, lambda { w.ix.delete(['1', 1.5]) }, lambda { w.ix.add_indexes(['nothing']) }]
  begin; calls[k].call; p.fail('the call is accepted'); rescue ArgumentError; end
  full(p, w.ix, w.m, 'after the refused call'); w.close; p.eval
end
# the same calls on many documents at once
SIZES = lambda do |p|
  n = p.pick((1..12).to_a + [16, 17, 31, 33, 64, 65, 99, 100, 101, 130, 256, 257] + (p.thorough? ? [513, 1025, 2000] : [])); k = p.choose(8); key = p.pick([nil, :id]); cut = p.pick([0, 1, 7]); auto = p.choose(2) == 1; p.mine? or next
  next if (cut == 1 || auto) && n > 130
  p.note("[#{n} documents, key #{key.inspect}, flushed every #{cut}, auto_flush #{auto}: #{['query_delete', 'query_update', 'batch_update hash', 'batch_update array', 'delete array', 'update each', 'add again', 'query_delete half'][k]}] ")
  w = World.new(p, key, auto, false); ids = (0...n).map { |i| "k#{i}" }
  ids.each_with_index { |x, i| w.ix << { id: x, c: (i.odd? ? 'x o' : 'x e') }; w.ix.flush if cut > 0 && i % cut == 0 }
  docs = {}; ids.each_with_index { |x, i| docs[x] = (i.odd? ? 'x o' : 'x e') }; twice = false
  case k
  when 0 then w.ix.query_delete('c:x'); docs.clear
  when 1 then w.ix.query_update('c:x', { c: 'u' }); ids.each { |x| docs[x] = 'u' }
  when 2 then w.ix.batch_update(ids.to_h { |x| [x, { id: x, c: 'u' }] }); ids.each { |x| docs[x] = 'u' }
  when 3 then w.ix.batch_update(ids.map { |x| { id: x, c: 'u' } }); ids.each { |x| docs[x] = 'u' }
  when 4 then w.ix.delete(ids[0...-1]); ids[0...-1].each { |x| docs.delete(x) }
  when 5 then ids.first(40).each { |x| w.ix.update(x, { id: x, c: 'u' }); docs[x] = 'u' }
  when 6 then ids.each { |x| w.ix << { id: x, c: 'u' }; docs[x] = 'u' }; twice = key.nil?
  when 7 then w.ix.query_delete('c:o'); ids.each_with_index { |x, i| docs.delete(x) if i.odd? }
  end
  look = lambda do |ix, who|
    got = Hash.new { |h, q| h[q] = [] }; ix.each { |d| got[d[:id]] << d[:c] }; p.step
    want = {}; docs.each { |x, c| want[x] = [c] }; ids.each_with_index { |x, i| want[x] = [(i.odd? ? 'x o' : 'x e'), 'u'] } if twice
    bad = (got.keys | want.keys).find { |x| got[x] != want[x] }
    p.check(bad.nil?) { "#{who}: documents with id #{bad}: #{got[bad].inspect}, expected #{want[bad].inspect}" }
    c = want.values.flatten; p.check(ix.size == c.size) { "#{who}: size #{ix.size}, expected #{c.size}" }
    %w[x u o e].each { |t| e = c.count { |v| v.split(' ').include?(t) }; g = hits(ix, "c:#{t}").size; p.check(g == e) { "#{who}: #{g} documents match c:#{t}, expected #{e}" }
      p.check((g = ix.search("c:#{t}", limit: 3)).total_hits == e && g.hits.size == [3, e].min) { "#{who}: search for c:#{t} reports #{g.total_hits} hits and gives #{g.hits.size}" }
      p.check((g = ix.scan("c:#{t}", limit: :all).size) == e) { "#{who}: scan for c:#{t} gives #{g}, expected #{e}" } }
    ids.each { |x| g = ix[x]; g = g && g.load[:c]; e = (want[x] || []).first; p.check(g == e) { "#{who}: ['#{x}'] is #{g.inspect}, expected #{e.inspect}" } }
    p.state([n, c].inspect)
  end
  look[w.ix, 'the index']; w.ix.flush; o = w.open; look[o, 'another object']; o.close; w.ix.optimize; look[w.ix, 'the optimized index']; w.close; p.eval
end
MC.run("a violation is an Index object whose size, documents, searches or lookups differ from the collection its operations describe, in the object itself, in another one after a flush, or after reopening", [
  ['operations', "all sequences of 2 (3) of #{OPS.size} operations, no key, one key field and two key fields, with and without auto_flush, RAM and files", ALL],
  ['histories', "all sequences of 4 (5) of #{CORE.size} operations, three kinds of key, with and without auto_flush", DEEP],
  ['two-objects', 'all sequences of 4 (5) of 10 operations distributed over two objects on one directory', TWO],
  ['moving', 'persist, add_indexes (indexes, directories, readers), closed indexes and block form after all sequences of 2 of 5 operations and before every operation', MISC],
  ['sizes', '24 (27) sizes from 1 to 257 (2000) documents, eight bulk calls, with and without key, three flush intervals, with and without auto_flush', SIZES],
  ['refused', 'six refused calls in three states', BAD],
])
