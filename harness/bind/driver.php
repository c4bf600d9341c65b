<?php // as driver.py (without the directory of the module)
[$mode, $path] = [$argv[1], $argv[2]];
[$shard, $shards, $lo, $hi] = array_map('intval', array_slice($argv, 3, 4));
$prog = fopen($argv[7], 'c');
$steps = 0;

function at($i) { global $prog; fseek($prog, 0); fwrite($prog, str_pad("$i", 12)); fflush($prog); }

function same($a, $b) {
  if (is_array($b)) {
    if (!is_array($a) || count($a) !== count($b) || array_is_list($a) !== array_is_list($b)) return false;
    foreach ($b as $k => $v) if (!array_key_exists($k, $a) || !same($a[$k], $v)) return false;
    return true;
  }
  return is_string($a) && $a === $b;
}

function at_is($want, $at) { return is_array($want) && isset($want['message'], $want['at']) && $want['at'] === $at; }
function named($want, $at, $msg) { return at_is($want, $at) && str_contains($msg, $want['message']); }

function run_case($c) {
  [$rule, $html, $limit, $want] = $c;
  try { $r = new HextRule($rule); }
  catch (Throwable $e) { return ($want === 'syntax' && $e->getMessage() !== '') || named($want, 'Rule', $e->getMessage()) ? null : 'exception from Rule: ' . $e; }
  if ($want === 'syntax' || at_is($want, 'Rule')) return 'no exception from Rule';
  $h = new HextHtml($html);
  try { $got = $limit ? $r->extract($h, $limit) : $r->extract($h); if ($want === 'any') return is_array($got) ? null : 'no array'; }
  catch (Throwable $e) { return (in_array($want, ['limit', 'error', 'any'], true) && $e->getMessage() !== '') || named($want, 'extract', $e->getMessage()) ? null : 'exception from extract: ' . $e; }
  if (!same($got, $want)) return 'expected ' . substr(json_encode($want), 0, 1500) . ', got ' . substr(json_encode($got, JSON_INVALID_UTF8_SUBSTITUTE), 0, 1500);
  return null;
}

// Objects whose constructor did not run crash in swig's runtime for PHP
// (SWIG_ConvertPtr reads the type of the null wrapper): not hext's code.
function wrong($rule, $html) {
  $r = $rule ?? new HextRule('<a/>');
  $h = $html ?? new HextHtml('');
  $t = [fn() => new HextRule(), fn() => new HextRule('<a/>', 1), fn() => new HextRule(new stdClass), fn() => new HextHtml(),
    fn() => $r->extract(), fn() => $r->extract(5), fn() => $r->extract(null), fn() => $r->extract('x'), fn() => $r->extract($r), fn() => $r->extract(new stdClass),
    fn() => $r->extract($h, []), fn() => $r->extract($h, 1, 2), fn() => (clone $r)->extract($h),
    fn() => $r->extract(clone $h)];
  foreach ($t as $i => $f) {
    try { $f(); } catch (Throwable $e) { continue; }
    if ($i < 12) return "no exception for wrong arguments ($i)";
  }
  return null;
}

function run_history($ops, $hist) {
  global $steps;
  $rules = $htmls = $res = $want = [null, null];
  foreach ($hist as $i) {
    $o = $ops[$i];
    [$name, $r, $h, $x] = $o;
    $steps++;
    switch ($name) {
      case 'rule': $rules[$r] = new HextRule($o[4]); break;
      case 'html': $htmls[$h] = new HextHtml($o[4]); break;
      case 'extract': $res[$x] = $rules[$r]->extract($htmls[$h]); $want[$x] = $o[4]; break;
      case 'limit':
        try { $rules[$r]->extract($htmls[$h], 1); return 'no exception: ' . json_encode($o); } catch (Throwable $e) {}
        break;
      case 'bad':
        try { $rules[$r] = new HextRule($o[4]); return 'no exception: ' . json_encode($o); } catch (Throwable $e) {}
        break;
      case 'drop':
        if ($r >= 0) $rules[$r] = null;
        if ($h >= 0) $htmls[$h] = null;
        if ($x >= 0) $res[$x] = $want[$x] = null;
        break;
      case 'change':
        foreach ($res[$x] as &$m) { $m['x'] = null; $m["\0"] = $m; }
        unset($m);
        $res[$x][] = $res[$x];
        $res[$x] = $want[$x] = null;
        break;
      case 'new-rule':
      case 'new-html':
        if ($name === 'new-rule') { $rules[$r] = null; $rules[$r] = new HextRule($o[4]); }
        else { $htmls[$h] = null; $htmls[$h] = new HextHtml($o[4]); }
        $got = $rules[$r]->extract($htmls[$h]);
        if ($name === 'new-rule') $rules[$r] = null; else $htmls[$h] = null;
        if (!same($got, $o[5])) return $name . ': expected ' . json_encode($o[5]) . ', got ' . json_encode($got, JSON_INVALID_UTF8_SUBSTITUTE | JSON_PARTIAL_OUTPUT_ON_ERROR);
        break;
      case 'wrong':
        if ($e = wrong($rules[0] ?? $rules[1], $htmls[0] ?? $htmls[1])) return $e;
        break;
    }
    unset($e);
    for ($k = 0; $k < 2; ++$k)
      if ($want[$k] !== null && !same($res[$k], $want[$k]))
        return 'after ' . json_encode($o) . ': expected ' . json_encode($want[$k]) . ', got ' . json_encode($res[$k], JSON_INVALID_UTF8_SUBSTITUTE | JSON_PARTIAL_OUTPUT_ON_ERROR);
  }
  return null;
}

function live() { gc_collect_cycles(); return (int) file_get_contents('/live-bytes'); }

function run_memory($ops, $c) {
  foreach ([100, 1000] as $rounds) {
    $m = [0, 0, 0, 0];
    for ($k = 0; $k < 4; ++$k) {
      for ($i = 0; $i < ($k ? $rounds : intdiv($rounds, 4)); ++$i) {
        $e = is_string($c[0] ?? 0) ? run_case($c) : run_history($ops, $c);
        if ($e !== null) return $e;
      }
      $m[$k] = live();
    }
    if (min($m[1] - $m[0], $m[2] - $m[1], $m[3] - $m[2]) < 8 * $rounds) return null;
  }
  return 'memory grows with every round: ' . json_encode($m) . ' bytes in use, 1000 rounds apart';
}

$n = 0; $fail = null;
$f = fopen($path, 'rb');
$ops = in_array($mode, ['histories', 'memory']) ? json_decode(fgets($f), true) : null;
for ($i = 0; ($line = fgets($f)) !== false; ++$i) {
  if ($i < $lo || $i >= $hi || $i % $shards !== $shard) continue;
  at($i);
  $n++;
  if (!in_array($mode, ['histories', 'memory'])) $steps++;
  $c = json_decode($line, true, 512, JSON_THROW_ON_ERROR);
  $e = $mode === 'memory' ? run_memory($ops, $c) : ($mode === 'histories' ? run_history($ops, $c) : run_case($c));
  if ($e !== null) { $fail = ['line' => $i, 'msg' => $e]; break; }
  if ($n % 500 === 0) gc_collect_cycles();
}
gc_collect_cycles();
$keep = [new HextRule('<a href:x/>'), new HextHtml('<a href=1>')];
echo json_encode(['n' => $n, 'steps' => $steps, 'fail' => $fail], JSON_INVALID_UTF8_SUBSTITUTE), "\n";
