# as driver.py
$:.unshift ARGV[0]
require 'json'
require 'hext'

$mode, path = ARGV[1], ARGV[2]
mode = $mode
shard, shards, lo, hi = ARGV[3..6].map(&:to_i)
$prog = File.open(ARGV[7], File::WRONLY | File::CREAT)
$steps = 0
$full_gc = (hi - lo <= 1 && mode != "memory") || ENV["VERIF_GC"] == "1"

def at(i) = $prog.pwrite(i.to_s.ljust(12), 0)

def same(a, b)
  case b
  when Array then a.instance_of?(Array) && a.size == b.size && a.zip(b).all? { |x, y| same(x, y) }
  when Hash then a.instance_of?(Hash) && a.size == b.size && b.all? { |k, v| a.key?(k) && same(a[k], v) } && a.keys.all? { |k| k.encoding == Encoding::UTF_8 }
  else a.instance_of?(String) && a.encoding == Encoding::UTF_8 && a.valid_encoding? && a == b
  end
end

def at_is(want, at) = want.is_a?(Hash) && want["at"] == at

def named(want, at, msg)
  return false unless at_is(want, at)
  msg.b.include?(want["message"].b)
end

def run_case(c)
  rule, html, limit, want = c
  begin
    r = Hext::Rule.new(rule)
  rescue StandardError => e
    return (want == "syntax" && !e.message.empty?) || named(want, "Rule", e.message) ? nil : "exception from Rule: #{e.inspect}"
  end
  return "no exception from Rule" if want == "syntax" || at_is(want, "Rule")
  h = Hext::Html.new(html)
  begin
    got = limit != 0 ? r.extract(h, limit) : r.extract(h)
    return got.is_a?(Array) ? nil : "no array" if want == "any"
  rescue StandardError => e
    return (["limit", "error", "any"].include?(want) && !e.message.empty?) || named(want, "extract", e.message) ? nil : "exception from extract: #{e.inspect}"
  end
  return "expected #{want.inspect[0, 1500]}, got #{got.inspect[0, 1500]}" unless same(got, want)
  nil
end

def wrong(rule, html)
  rr, hh = Hext::Rule, Hext::Html
  r = rule || rr.new("<a/>")
  h = html || hh.new("")
  t = [-> { rr.new }, -> { rr.new(5) }, -> { rr.new(nil) }, -> { rr.new(:a) }, -> { rr.new("<a/>", 1) }, -> { hh.new }, -> { hh.new(5) }, -> { hh.new(nil) },
       -> { r.extract }, -> { r.extract(5) }, -> { r.extract(nil) }, -> { r.extract("x") }, -> { r.extract(r) }, -> { r.extract(h, "x") },
       -> { r.extract(h, -1) }, -> { r.extract(h, 2**64) }, -> { r.extract(h, nil) }, -> { r.extract(h, 1, 2) }, -> { rr.allocate.extract(h) },
       -> { r.extract(hh.allocate) }, -> { r.dup.extract(h) }, -> { r.extract(h.dup) }]
  t.each_with_index do |f, i|
    # Ruby's dup leaks the instance variable of swig's runtime
    break if i >= 20 && $mode == "memory"
    begin
      f.call
    rescue StandardError
      next
    end
    # a copy may also work like the original
    return "no exception for wrong arguments (#{i})" if i < 20
  end
  nil
end

def run_history(ops, hist)
  rules, htmls, res, want = [nil, nil], [nil, nil], [nil, nil], [nil, nil]
  hist.each do |i|
    o = ops[i]
    name, r, h, x = o
    $steps += 1
    case name
    when "rule" then rules[r] = Hext::Rule.new(o[4])
    when "html" then htmls[h] = Hext::Html.new(o[4])
    when "extract" then res[x] = rules[r].extract(htmls[h]); want[x] = o[4]
    when "limit"
      ok = begin rules[r].extract(htmls[h], 1); false; rescue StandardError; true; end
      return "no exception: #{o}" unless ok
    when "bad"
      ok = begin rules[r] = Hext::Rule.new(o[4]); false; rescue StandardError; true; end
      return "no exception: #{o}" unless ok
    when "drop"
      rules[r] = nil if r >= 0
      htmls[h] = nil if h >= 0
      res[x] = want[x] = nil if x >= 0
      GC.start if $full_gc
    when "change"
      res[x].each { |m| m["x"] = nil; m["\0"] = m }
      res[x] << res[x]
      res[x] = want[x] = nil
    when "new-rule", "new-html"
      if name == "new-rule"
        rules[r] = nil
        GC.start if $full_gc
        rules[r] = Hext::Rule.new(o[4])
      else
        htmls[h] = nil
        GC.start if $full_gc
        htmls[h] = Hext::Html.new(o[4])
      end
      got = rules[r].extract(htmls[h])
      if name == "new-rule" then rules[r] = nil else htmls[h] = nil end
      return "#{name}: expected #{o[5]}, got #{got}" unless same(got, o[5])
    when "wrong"
      e = wrong(rules[0] || rules[1], htmls[0] || htmls[1])
      return e if e
    end
    2.times { |k| return "after #{o}: expected #{want[k]}, got #{res[k]}" if want[k] && !same(res[k], want[k]) }
  end
  nil
end

def live
  GC.start
  File.read("/live-bytes").to_i
end

def run_memory(ops, c)
  m = []
  [100, 1000].each do |rounds|
    m = []
    4.times do |k|
      (k == 0 ? rounds / 4 : rounds).times do
        e = c[0].is_a?(String) ? run_case(c) : run_history(ops, c)
        return e if e
      end
      m << live
    end
    return nil if m.each_cons(2).map { |a, b| b - a }.min < 8 * rounds
  end
  "memory grows with every round: #{m} bytes in use, 1000 rounds apart"
end

n, fail = 0, nil
File.open(path, encoding: "UTF-8") do |f|
  ops = ["histories", "memory"].include?(mode) ? JSON.parse(f.gets("\n")) : nil
  f.each_line("\n").with_index do |line, i|
    next if i < lo || i >= hi || i % shards != shard
    at(i)
    n += 1
    $steps += 1 unless ["histories", "memory"].include?(mode)
    c = JSON.parse(line)
    e = mode == "memory" ? run_memory(ops, c) : mode == "histories" ? run_history(ops, c) : run_case(c)
    if e
      fail = { "line" => i, "msg" => e.to_s.dup.force_encoding("UTF-8").scrub }
      break
    end
    GC.start if n % 20 == 0
  end
end
GC.start
$keep = [Hext::Rule.new("<a href:x/>"), Hext::Html.new("<a href=1>")]
puts JSON.generate({ "n" => n, "steps" => $steps, "fail" => fail })
