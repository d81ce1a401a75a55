package trace

func synthesiseName(base, attempt) result
  props C02
  requires 0 <= attempt
  ensures own name: attempt == 0 && base != "test" ==> result == base
  ensures numbered: 0 < attempt && base != "test" ==> result == base + fn("itoa", string, attempt - 1)
  ensures numbered default: base == "test" ==> result == base + fn("itoa", string, attempt)

// The name tried in each attempt.
spec tryName(base string, i int) string = ite(base == "test", base + fn("itoa", string, i), ite(0 < i, base + fn("itoa", string, i - 1), base))
spec ownName(t Forbidden) string = ite(t.Name == "", "test", t.Name)
// Attempt a gives the first name for base that is not in m.
spec firstFree(m map[string]Forbidden, base string, a int) bool = 0 <= a && !has(m, tryName(base, a)) && forall(j, 0, a, has(m, tryName(base, j)))
spec keptBut(m map[string]Forbidden, n string) bool = all(x, string, x != n ==> (has(m, x) <==> old(has(m, x))) && (has(m, x) ==> same(m[x], old(m[x]))))

func insertName(result, base, trace)
  props C02
  requires result != nil
  modifies result
  inv{i:int} taken so far: 0 <= i && forall(j, 0, i, old(has(result, tryName(base, j))))
  inv own name taken: 0 < ITER && base != "test" ==> old(has(result, base))
  ensures the first free name: some(a, int, old(firstFree(result, base, a)) && has(result, tryName(base, a)) && same(result[tryName(base, a)], trace) && keptBut(result, tryName(base, a)))
  ensures one more: len(result) == old(len(result)) + 1
  ensures own name if free: base != "test" && !old(has(result, base)) ==> has(result, base) && same(result[base], trace) && keptBut(result, base)

func Name(traces) result
  props C02
  // at: the name of each trace; num: the attempt that gave it; by: the trace with a name
  ghost num fn[int, int]
  ghost at fn[int, string]
  ghost by fn[string, int]
  after insertName(m, base, t): num = upd(num, len(m) - 1, choose(a, int, old(firstFree(m, base, a)) && has(m, tryName(base, a)) && same(m[tryName(base, a)], t) && keptBut(m, tryName(base, a))))
  after insertName(m, base, t): at = upd(at, len(m) - 1, tryName(base, num[len(m) - 1]))
  after insertName(m, base, t): by = upd(by, at[len(m) - 1], len(m) - 1)
  inv{m:map[string]Forbidden} as many: len(m) == ITER
  inv{m:map[string]Forbidden} each: forall(i, 0, ITER, has(m, at[i]) && same(m[at[i]], traces[i]))
  inv{m:map[string]Forbidden} only: all(x, string, has(m, x) ==> 0 <= by[x] && by[x] < ITER && at[by[x]] == x)
  inv numbered: forall(i, 0, ITER, 0 <= num[i] && at[i] == tryName(ownName(traces[i]), num[i]) && by[at[i]] == i)
  inv first free: forall(i, 0, ITER, forall(k, 0, num[i], 0 <= by[tryName(ownName(traces[i]), k)] && by[tryName(ownName(traces[i]), k)] < i && at[by[tryName(ownName(traces[i]), k)]] == tryName(ownName(traces[i]), k)))
  ensures as many: len(result) == len(traces)
  ensures each under its name: forall(i, 0, len(traces), has(result, at[i]) && same(result[at[i]], traces[i]))
  ensures numbered: forall(i, 0, len(traces), 0 <= num[i] && at[i] == tryName(ownName(traces[i]), num[i]))
  ensures the first name not taken before: forall(i, 0, len(traces), forall(k, 0, num[i], exists(j, 0, i, at[j] == tryName(ownName(traces[i]), k))))
  ensures no other: all(x, string, has(result, x) ==> exists(i, 0, len(traces), at[i] == x))
  ensures distinct: forall(i, 0, len(traces), forall(j, 0, i, at[i] != at[j]))
  ensures first keeps its name: forall(i, 0, len(traces), traces[i].Name != "" && traces[i].Name != "test" && forall(j, 0, i, at[j] != traces[i].Name) ==> at[i] == traces[i].Name)

// The text of cell i of a row without the name, the name, and what they mean.
spec cellText(row []string, i int) string = ite(i == 0 && strings.Contains(row[0], ":"), trim(fn("after", string, row[0], ":")), row[i])
spec rowName(row []string) string = ite(strings.Contains(row[0], ":"), trim(fn("before", string, row[0], ":")), "")
spec isEvent(s string, e testlang.Event) bool = e.Channel.Name == nameOf(s) && kindText(e.Channel.Kind, kindPart(s)) && ite(hasValue(s), valueOf(e.Value, trim(valuePart(s))), e.Value.content == nil)
spec goodRow(row []string) bool = 0 < len(row) && forall(i, 0, len(row), goodChannel(cellText(row, i)))
spec isTrace(row []string, t Forbidden) bool = t.Name == rowName(row) && len(t.Prefix) == len(row) - 1 && forall(i, 0, len(row) - 1, isEvent(cellText(row, i), t.Prefix[i])) && isEvent(cellText(row, len(row) - 1), t.Forbid)

func tryParseName(cell, trace) result
  inline

func selectEvent(index, prefixLen, trace) result
  inline

func parseRow(row) (result, err)
  props C01
  inv{t:Forbidden} name: t.Name == ite(0 < ITER, rowName(row), "")
  inv{t:Forbidden} as many: len(t.Prefix) == len(row) - 1 && 0 < len(row)
  inv{t:Forbidden} prefix: forall(i, 0, ITER, i < len(row) - 1 ==> isEvent(cellText(row, i), t.Prefix[i]))
  inv{t:Forbidden} rest empty: forall(i, ITER, len(row) - 1, t.Prefix[i].Value.content == nil)
  inv{t:Forbidden} forbidden: ite(ITER < len(row), t.Forbid.Value.content == nil, isEvent(cellText(row, len(row) - 1), t.Forbid))
  inv well formed: forall(i, 0, ITER, goodChannel(cellText(row, i)))
  ensures exactly the well-formed rows: err == nil <==> goodRow(row)
  ensures trace: err == nil ==> isTrace(row, result)

func newReader(r) result
  props C01
  ensures settings: result != nil && fresh(result) && result.Comma == 44 && result.Comment == 35 && result.FieldsPerRecord == -1 && result.TrimLeadingSpace && !result.LazyQuotes && !result.ReuseRecord

func Read(r) (result, err)
  props C01
  // the rows read so far, and the last error of the reader
  ghost rows fn[int, []string]
  ghost n int = 0
  ghost last error
  after csv.Reader.Read(c) (row, e): rows = upd(rows, n, row)
  after csv.Reader.Read(c) (row, e): last = e
  after csv.Reader.Read(c) (row, e): n = ite(e == nil, n + 1, n)
  at csv.Reader.Read(c) settings: c.Comma == 44 && c.Comment == 35 && c.FieldsPerRecord == -1 && c.TrimLeadingSpace && !c.LazyQuotes && !c.ReuseRecord
  inv rows exist: forall(i, 0, n, alloced(rows[i]))
  inv{ts:[]Forbidden} as many: len(ts) == n
  inv{ts:[]Forbidden} names: forall(i, 0, n, ts[i].Name == rowName(rows[i]) && len(ts[i].Prefix) == len(rows[i]) - 1)
  inv{ts:[]Forbidden} prefixes: forall(i, 0, n, forall(j, 0, len(rows[i]) - 1, isEvent(cellText(rows[i], j), ts[i].Prefix[j])))
  inv{ts:[]Forbidden} forbidden: forall(i, 0, n, isEvent(cellText(rows[i], len(rows[i]) - 1), ts[i].Forbid))
  inv good: forall(i, 0, n, goodRow(rows[i]))
  ensures a trace for every row, in order: err == nil ==> len(result) == n && forall(i, 0, n, isTrace(rows[i], result[i]))
  ensures to the end: err == nil ==> errIs(last, io.EOF)
  ensures fails on a malformed row: exists(i, 0, n, !goodRow(rows[i])) ==> err != nil
  ensures fails if the rows cannot be read: last != nil && !errIs(last, io.EOF) ==> err != nil
  ensures fails for nothing else: err != nil ==> last != nil && !errIs(last, io.EOF) || exists(i, 0, n, !goodRow(rows[i]))
  ensures all or nothing: err != nil ==> result == nil
