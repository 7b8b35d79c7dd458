# C28: string forms of numbers, dates and times keep their order and can be read back.
require 'mc'
require 'ferret'
require 'ferret/number_tools'
include Ferret
BIG = (0..40).to_a + [99, 100, 101, 999, 1000, 9997, 9998]
def boundary(big)
  v = (-120..120).to_a
  (big ? BIG : BIG.first(26)).each { |k| (-2..2).each { |d| [1, 9, 5].each { |m| n = m * 10**k + d; v << n << -n if n.to_s.size <= 9999 } } }
  (1..130).each { |k| (-1..1).each { |d| v << 2**k + d << -(2**k) + d } } if big
  v.uniq.sort
end
# adjacent values in numeric order have ascending strings
RANGE = lambda do |p|
  blk = p.thorough? ? 20000 : 5000; n = 40; i = p.choose(n); p.mine? or next
  lo = (i - n / 2) * blk; p.note("[integers #{lo} to #{lo + blk}] "); prev = (lo - 1).to_s_lex
  (lo..lo + blk).each { |v| s = v.to_s_lex; p.check(prev < s) { "#{v - 1} becomes #{prev}, not before #{s} for #{v}" }; p.check(s.to_i_lex == v) { "#{s} for #{v} is read back as #{s.to_i_lex}" }; prev = s; p.step; p.eval }
  p.state(lo.to_s)
end
PAIRS = lambda do |p|
  b = ($bounds ||= boundary(true)); lex = ($lex ||= b.map { |c| c.to_s_lex }); i = p.choose(b.size); p.mine? or next
  a = b[i]; sa = a.to_s_lex; p.note("[#{a.to_s.size > 50 ? a.to_s[0, 20] + '...' : a}] ")
  p.check(sa.to_i_lex == a) { "#{sa[0, 60]} is read back as #{sa.to_i_lex.to_s[0, 60]}" }; p.check(sa =~ /\A[ -~]+\z/) { "not printable" }
  b.each_with_index { |c, j| sc = lex[j]; p.check((sa <=> sc) == (a <=> c)) { "#{a.to_s[0, 50]} and #{c.to_s[0, 50]} sort as #{sa[0, 60]} and #{sc[0, 60]}" }; p.step }
  p.eval; p.state(a.to_s)
end
PAD = lambda do |p|
  w = 1 + p.choose(p.thorough? ? 5 : 4); p.mine? or next
  p.note("[width #{w}] "); prev = nil
  (0...10**w).each { |v| s = v.to_s_pad(w); p.check(s.size == w && s =~ /\A\d+\z/ && s.to_i == v) { "#{v} padded to #{w} is '#{s}'" }; p.check(prev.nil? || prev < s) { "#{v} is '#{s}', not after '#{prev}'" }; prev = s; p.step }
  if w > 1 then prev = nil; (1...10**(w - 1)).each { |v| s = (-v).to_s_pad(w); p.check(s.size == w && s[0] == '-' && s.to_i == -v) { "#{-v} padded to #{w} is '#{s}'" }; p.check(prev.nil? || prev < s) { "#{-v} is '#{s}', not after '#{prev}' (negative numbers sort in the opposite direction)" }; prev = s; p.step } end
  [10**w, 10**(w + 3), -(10**w)].each { |v| s = v.to_s_pad(w); p.check(s == v.to_s) { "#{v} padded to #{w} is '#{s}'" } }
  [[w, 7], [10, 123], [10, 0], [20, 10**19], [35, 10**34]].each { |k, v| p.check((k == 10 ? v.to_s_pad : v.to_s_pad(k)) == v.to_s.rjust(k, '0')) { "#{v} padded to #{k} is '#{v.to_s_pad(k)}'" } }
  p.eval; p.state(w.to_s)
end
PREC = { year: 1, month: 2, day: 3, hour: 4, minute: 5, second: 6, millisecond: 6 }
def parts(t) t.is_a?(Date) && !t.is_a?(DateTime) ? [t.year, t.month, t.day] : [t.year, t.month, t.day, t.hour, t.min, t.sec] end
def trunc(t, n) a = parts(t).first(n); a + [0, 1, 1, 0, 0, 0][a.size...(parts(t).size)] end
DATES = lambda do |p|
  n = 64; c = p.choose(n); p.mine? or next
  years = p.thorough? ? (1..9999) : ((1..12).to_a + (95..105).to_a + (995..1005).to_a + (1500..1760).to_a + (1880..2120).to_a + (9990..9999).to_a)
  ys = years.to_a.each_slice((years.to_a.size + n - 1) / n).to_a[c] or next
  p.note("[years #{ys.first} to #{ys.last}] "); prev = nil
  ys.each { |y| (1..12).each { |m| (1..31).each { |d|
    next unless Date.valid_date?(y, m, d)
    t = Date.new(y, m, d); s = t.to_s_lex
    p.check(prev.nil? || (prev[0] < s && prev[1] < t)) { "#{t} becomes #{s}, not after #{prev[0]}" }
    [:year, :month, :day].each { |pr| x = t.to_s_lex(pr); r = x.to_date_lex; p.check(parts(r) == trunc(t, PREC[pr])) { "#{t} to the #{pr} is #{x} and is read back as #{r}" }
      p.check(prev.nil? || (prev[1].to_s_lex(pr) <=> x) == (trunc(prev[1], PREC[pr]) <=> trunc(t, PREC[pr]))) { "#{prev[1]} and #{t} to the #{pr}: #{prev[1].to_s_lex(pr)} and #{x}" }; p.step }
    prev = [s, t] } } }
  p.eval; p.state(ys.first.to_s)
end
def instants(thorough)
  r = []; ys = thorough ? [1, 9, 99, 999, 1000, 1582, 1600, 1969, 1970, 1999, 2000, 2004, 2037, 2038, 2100, 9999] : [1, 999, 1000, 1600, 1970, 2000, 2038, 9999]
  ys.each { |y| [1, 2, 9, 10, 12].each { |m| [1, 9, 10, 28, 29, 31].each { |d| next unless Date.valid_date?(y, m, d); [0, 9, 10, 23].each { |h| [0, 9, 59].each { |mi| [0, 10, 59].each { |s| r << [y, m, d, h, mi, s] } } } } } }
  r
end
TIMES = lambda do |p|
  kind = p.choose(3); pr = p.pick(PREC.keys); zone = kind == 1 ? p.choose(3) : 0; p.mine? or next
  p.note("[#{['date-time', 'local time', 'UTC time'][kind]} to the #{pr}#{zone > 0 ? ", zone #{zone}" : ''}] ")
  ENV['TZ'] = ['UTC', 'FRT-5:30', 'FRT+8'][zone]; prev = nil
  instants(p.thorough?).each do |a|
    t = kind == 0 ? DateTime.new(*a) : kind == 1 ? Time.mktime(*a) : Time.utc(*a); s = t.to_s_lex(pr); w = trunc(t, PREC[pr])
    if kind == 0 then r = s.to_date_time_lex; p.check(r.is_a?(DateTime) && parts(r) == w) { "#{t} is #{s} and is read back as #{r}" }; d = s.to_date_lex; p.check([d.year, d.month, d.day] == w.first(3)) { "#{t} is #{s} and is read back as the date #{d}" }
    else r = s.to_time_lex; p.check(parts(r) == w) { "#{t} is #{s} and is read back as #{r}" } end
    p.check(prev.nil? || (prev[0] <=> s) == (prev[1] <=> w)) { "#{prev[1].inspect} becomes #{prev[0]} and #{w.inspect} becomes #{s}" }
    prev = [s, w]; p.step
  end
  ENV['TZ'] = 'UTC'; p.eval; p.state("#{kind} #{pr} #{zone}")
end
# range queries over the strings select the values of the numeric range
QUERIES = lambda do |p|
  kind = p.choose(3); part = p.choose(8); p.mine? or next
  vals = kind == 0 ? [-10**30, -1001, -1000, -999, -100, -99, -10, -9, -2, -1, 0, 1, 2, 9, 10, 11, 99, 100, 101, 1000, 10**30] : kind == 1 ? [0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 999] : [[1, 1, 1], [999, 12, 31], [1000, 1, 1], [1999, 12, 31], [2000, 1, 1], [2000, 2, 29], [2000, 10, 1], [9999, 12, 31]].map { |a| Date.new(*a) }
  str = lambda { |v| kind == 1 ? v.to_s_pad(4) : v.to_s_lex }
  fi = Index::FieldInfos.new(term_vector: :no); fi.add_field(:n, index: :untokenized); fi.add_field(:id, index: :no)
  ix = Index::Index.new(field_infos: fi, analyzer: Analysis::WhiteSpaceAnalyzer.new); order = (0...vals.size).map { |i| (i * 5 + 2) % vals.size }.uniq; order = (0...vals.size).to_a.reverse if order.size != vals.size
  order.each { |i| ix << { n: str[vals[i]], id: i.to_s } }
  s = ix.searcher
  vals.each_with_index { |lo, i| next if i % 8 != part; (vals + [nil]).each { |hi| [[:>=, :<=], [:>, :<], [:>=, :<], [:>, :<=]].each { |lop, hop|
    next if hi && (hi < lo || (hi == lo && [lop, hop] != [:>=, :<=]))
    o = { lop => str[lo] }; o[hop] = str[hi] if hi
    want = vals.select { |v| v.send(lop, lo) && (hi.nil? || v.send(hop, hi)) }.map { |v| vals.index(v) }.sort
    [[:range, lambda { Search::RangeQuery.new(:n, o) }], [:filter, lambda { Search::ConstantScoreQuery.new(Search::RangeFilter.new(:n, o)) }]].each { |nm, mk|
      got = []; s.search_each(mk.call, limit: :all) { |d, _| got << ix[d][:id].to_i }
      p.check(got.sort == want) { "#{nm} #{o.inspect} finds #{got.sort.map { |x| vals[x] }.inspect}, expected #{want.map { |x| vals[x] }.inspect}" }; p.step }
  } } }
  ix.close; p.eval; p.state("#{kind} #{part}")
end
MC.run("a violation is a pair of values whose strings sort differently from the values, a string read back as another value, or a range query over the strings that selects other values", [
  ['integers', 'all integers within 100,000 (400,000) of zero: order of neighbours and reading back', RANGE],
  ['pairs', 'all pairs of about 1,000 boundary integers (powers of ten and two, up to 9,999 digits, both signs)', PAIRS],
  ['padding', 'all numbers of up to 4 (5) digits at their width, negative ones, numbers wider than the field', PAD],
  ['dates', 'every day of 550 years around the boundaries (all years 1 to 9999), every precision: order and reading back', DATES],
  ['times', 'about 8,000 (16,000) date-times, local times in three zones and UTC times at every precision', TIMES],
  ['queries', 'range queries and filters for all bounds over 21 integers, 12 padded numbers and 8 dates', QUERIES],
])
