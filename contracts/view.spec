// C12: the generator's view of a machine's transitions

package transition

spec onAgg(a AggregateSet, c channel.Channel) bool = a.BaseSet.Channel.Name == c.Name && a.BaseSet.Channel.Kind == c.Kind
spec distinctAggs(aggs []AggregateSet) bool = forall(i, 0, len(aggs), forall(j, 0, len(aggs), onAgg(aggs[i], aggs[j].BaseSet.Channel) ==> i == j))
spec ownMaps(aggs []AggregateSet) bool = forall(i, 0, len(aggs), aggs[i].States != nil && forall(j, 0, len(aggs), same(aggs[i].States, aggs[j].States) ==> i == j))
spec sameList(a []Transition, b []Transition) bool = len(a) == len(b) && forall(p, 0, len(a), sameTransition(a[p], b[p]))

func AddToAggregateSets(aggs, stateID, set) result
  props C12
  requires distinctAggs(aggs) && ownMaps(aggs)
  requires forall(j, 0, len(aggs), onAgg(aggs[j], set.BaseSet.Channel) ==> !has(aggs[j].States, stateID))
  modifies aggs, each(j, 0, len(aggs), aggs[j].States)
  inv not yet: forall(j, 0, ITER, !onAgg(aggs[j], set.BaseSet.Channel))
  ensures merged: forall(j, 0, len(aggs), old(onAgg(aggs[j], set.BaseSet.Channel)) ==> len(result) == len(aggs) && has(result[j].States, stateID) && sameList(result[j].States[stateID], set.Transitions))
  ensures new: forall(j, 0, len(aggs), !old(onAgg(aggs[j], set.BaseSet.Channel))) ==> len(result) == len(aggs) + 1 && onAgg(result[len(aggs)], set.BaseSet.Channel) && fresh(result[len(aggs)].States) && has(result[len(aggs)].States, stateID) && sameList(result[len(aggs)].States[stateID], set.Transitions) && all(x, testlang.NodeID, has(result[len(aggs)].States, x) ==> x == stateID)
  ensures one more at most: len(result) == len(aggs) || len(result) == len(aggs) + 1
  ensures kept: forall(j, 0, len(aggs), onAgg(result[j], old(aggs[j].BaseSet.Channel)) && same(result[j].States, old(aggs[j].States)))
  ensures others kept: forall(j, 0, len(aggs), all(x, testlang.NodeID, x != stateID || !old(onAgg(aggs[j], set.BaseSet.Channel)) ==> has(result[j].States, x) == old(has(aggs[j].States, x)) && same(result[j].States[x], old(aggs[j].States[x]))))
  ensures distinct: distinctAggs(result)
  ensures own maps: ownMaps(result)
  ensures storage: base(result) == base(aggs) || fresh(result)

package stm

// Set k of state i is in the view, under its own channel and state: in aggregate agg[i][k].
spec placed(r []transition.AggregateSet, s *Stm, agg fn[int, fn[int, int]], i int, k int) bool = 0 <= agg[i][k] && agg[i][k] < len(r) && onAgg(r[agg[i][k]], s.States[i].TransitionSets[k].BaseSet.Channel) && has(r[agg[i][k]].States, s.States[i].ID) && sameList(r[agg[i][k]].States[s.States[i].ID], s.States[i].TransitionSets[k].Transitions)
// Set (i, k) comes before (p, q) in the machine.
spec before(i int, k int, p int, q int) bool = i < p || i == p && k < q
// The first set of aggregate a is set fk[a] of state fi[a].
spec firstUse(r []transition.AggregateSet, agg fn[int, fn[int, int]], fi fn[int, int], fk fn[int, int]) bool = forall(a, 0, len(r), 0 <= fi[a] && 0 <= fk[a] && agg[fi[a]][fk[a]] == a)
spec firstOrder(r []transition.AggregateSet, fi fn[int, int], fk fn[int, int]) bool = forall(a, 0, len(r), forall(c, 0, len(r), a < c ==> before(fi[a], fk[a], fi[c], fk[c])))
// State x of aggregate a is there for set ofK[a][x] of state ofI[a][x].
spec nothingElse(r []transition.AggregateSet, s *Stm, agg fn[int, fn[int, int]], ofI fn[int, fn[testlang.NodeID, int]], ofK fn[int, fn[testlang.NodeID, int]], i int, k int) bool = forall(a, 0, len(r), all(x, testlang.NodeID, has(r[a].States, x) ==> 0 <= ofI[a][x] && 0 <= ofK[a][x] && before(ofI[a][x], ofK[a][x], i, k) && ofI[a][x] < len(s.States) && ofK[a][x] < len(s.States[ofI[a][x]].TransitionSets) && s.States[ofI[a][x]].ID == x && agg[ofI[a][x]][ofK[a][x]] == a))

spec goodMachine(s *Stm) bool = s != nil && forall(i, 0, len(s.States), s.States[i] != nil && distinctSets(s.States[i])) && forall(i, 0, len(s.States), forall(j, 0, len(s.States), s.States[i].ID == s.States[j].ID ==> i == j))

func Stm.TransitionSets(s) r
  props C12
  ghost cs int = 0
  ghost ck int = 0
  ghost to int = 0
  ghost agg fn[int, fn[int, int]]
  ghost ofI fn[int, fn[testlang.NodeID, int]]
  ghost ofK fn[int, fn[testlang.NodeID, int]]
  ghost fi fn[int, int]
  ghost fk fn[int, int]
  requires goodMachine(s)
  after transition.AddToAggregateSets(aggs, id, set) (q): to = choose(i, int, 0 <= i && i < len(q) && onAgg(q[i], set.BaseSet.Channel))
  after transition.AddToAggregateSets(aggs, id, set) (q): agg = upd(agg, cs, upd(agg[cs], ck, to))
  after transition.AddToAggregateSets(aggs, id, set) (q): ofI = upd(ofI, to, upd(ofI[to], id, cs))
  after transition.AddToAggregateSets(aggs, id, set) (q): ofK = upd(ofK, to, upd(ofK[to], id, ck))
  after transition.AddToAggregateSets(aggs, id, set) (q): fi = lam(a, int, ite(a == to && len(aggs) <= to, cs, fi[a]))
  after transition.AddToAggregateSets(aggs, id, set) (q): fk = lam(a, int, ite(a == to && len(aggs) <= to, ck, fk[a]))
  after transition.AddToAggregateSets(aggs, id, set) (q): ck = ck + 1
  step cs = cs + 1
  step ck = 0
  inv state: cs == ITER && ck == 0
  inv inner state: cs == OUTERITER && ck == ITER
  inv{r:[]transition.AggregateSet} list: base(r) == 0 || fresh(r)
  inv{r:[]transition.AggregateSet} maps: forall(a, 0, len(r), fresh(r[a].States))
  inv{r:[]transition.AggregateSet} distinct: distinctAggs(r)
  inv{r:[]transition.AggregateSet} own maps: ownMaps(r)
  inv{r:[]transition.AggregateSet} placed: forall(i, 0, cs, forall(k, 0, len(s.States[i].TransitionSets), placed(r, s, agg, i, k)))
  inv{r:[]transition.AggregateSet} placed here: forall(k, 0, ck, placed(r, s, agg, cs, k))
  inv{r:[]transition.AggregateSet} nothing else: nothingElse(r, s, agg, ofI, ofK, cs, ck)
  inv{r:[]transition.AggregateSet} first use: firstUse(r, agg, fi, fk)
  inv{r:[]transition.AggregateSet} first used: forall(a, 0, len(r), before(fi[a], fk[a], cs, ck))
  inv{r:[]transition.AggregateSet} order: firstOrder(r, fi, fk)
  inv{r:[]transition.AggregateSet} first: forall(i, 0, cs, forall(k, 0, len(s.States[i].TransitionSets), !before(i, k, fi[agg[i][k]], fk[agg[i][k]])))
  inv{r:[]transition.AggregateSet} first here: forall(k, 0, ck, !before(cs, k, fi[agg[cs][k]], fk[agg[cs][k]]))
  ensures one per channel: distinctAggs(r)
  ensures own: (base(r) == 0 || fresh(r)) && ownMaps(r) && forall(a, 0, len(r), fresh(r[a].States))
  ensures placed: forall(i, 0, len(s.States), forall(k, 0, len(s.States[i].TransitionSets), placed(r, s, agg, i, k)))
  ensures nothing else: nothingElse(r, s, agg, ofI, ofK, len(s.States), 0)
  ensures first use: firstUse(r, agg, fi, fk) && firstOrder(r, fi, fk)
  ensures first: forall(i, 0, len(s.States), forall(k, 0, len(s.States[i].TransitionSets), !before(i, k, fi[agg[i][k]], fk[agg[i][k]])))

package gencommon

spec isIn(a transition.AggregateSet) bool = a.BaseSet.Channel.Kind == channel.KindIn
spec sameAgg(a transition.AggregateSet, b transition.AggregateSet) bool = a.BaseSet.Channel.Name == b.BaseSet.Channel.Name && a.BaseSet.Channel.Kind == b.BaseSet.Channel.Kind && same(a.States, b.States)
// The inputs are those aggregates for channels of that kind, in order: the q-th is aggregate inOf[q], and aggregate a is inAt[a]-th.
spec split(c TransitionContext, inOf fn[int, int], inAt fn[int, int], outOf fn[int, int], outAt fn[int, int], k int) bool = forall(q, 0, len(c.In), 0 <= inOf[q] && inOf[q] < k && isIn(c.All[inOf[q]]) && sameAgg(c.In[q], c.All[inOf[q]]) && inAt[inOf[q]] == q) && forall(q, 0, len(c.Out), 0 <= outOf[q] && outOf[q] < k && !isIn(c.All[outOf[q]]) && sameAgg(c.Out[q], c.All[outOf[q]]) && outAt[outOf[q]] == q)
spec splitAll(c TransitionContext, inOf fn[int, int], inAt fn[int, int], outOf fn[int, int], outAt fn[int, int], k int) bool = forall(a, 0, k, ite(isIn(c.All[a]), 0 <= inAt[a] && inAt[a] < len(c.In) && inOf[inAt[a]] == a, 0 <= outAt[a] && outAt[a] < len(c.Out) && outOf[outAt[a]] == a))
// State x's transitions in input aggregate a are merged from position off[a][x] on; what is at position p comes from aggregate src[x][p].
spec mergedAt(c TransitionContext, off fn[int, fn[testlang.NodeID, int]], k int) bool = all(x, testlang.NodeID, forall(a, 0, k, isIn(c.All[a]) && has(c.All[a].States, x) ==> 0 <= off[a][x] && off[a][x] + len(c.All[a].States[x]) <= len(c.InMerged[x])))
spec merged(c TransitionContext, off fn[int, fn[testlang.NodeID, int]], src fn[testlang.NodeID, fn[int, int]], x testlang.NodeID, p int) bool = sameTransition(c.InMerged[x][p], c.All[src[x][p]].States[x][p - off[src[x][p]][x]])
spec mergedAll(c TransitionContext, off fn[int, fn[testlang.NodeID, int]], src fn[testlang.NodeID, fn[int, int]]) bool = all(x, testlang.NodeID, forall(p, 0, len(c.InMerged[x]), merged(c, off, src, x, p)))
spec mergedFrom(c TransitionContext, off fn[int, fn[testlang.NodeID, int]], src fn[testlang.NodeID, fn[int, int]], k int) bool = all(x, testlang.NodeID, forall(p, 0, len(c.InMerged[x]), from(c, off, src, x, p, k)))
spec from(c TransitionContext, off fn[int, fn[testlang.NodeID, int]], src fn[testlang.NodeID, fn[int, int]], x testlang.NodeID, p int, k int) bool = (0 <= src[x][p] && src[x][p] < k && isIn(c.All[src[x][p]]) && has(c.All[src[x][p]].States, x) && off[src[x][p]][x] <= p && p < off[src[x][p]][x] + len(c.All[src[x][p]].States[x]))
spec mergedOnce(c TransitionContext, off fn[int, fn[testlang.NodeID, int]], src fn[testlang.NodeID, fn[int, int]], k int) bool = all(x, testlang.NodeID, forall(a, 0, k, isIn(c.All[a]) && has(c.All[a].States, x) ==> all(p, int, off[a][x] <= p && p < off[a][x] + len(c.All[a].States[x]) ==> src[x][p] == a)))
spec nothingYet(c TransitionContext) bool = c.InMerged != nil && len(c.In) == 0 && len(c.Out) == 0 && len(c.Channels) == 0 && !c.HasIn && all(x, testlang.NodeID, !has(c.InMerged, x))
spec separate(c TransitionContext) bool = (base(c.In) == 0 || base(c.In) != base(c.All) && base(c.In) != base(c.Out)) && (base(c.Out) == 0 || base(c.Out) != base(c.All)) && forall(a, 0, len(c.All), !same(c.All[a].States, c.InMerged))

func TransitionContext.populateFilters(c)
  props C12
  ghost inOf fn[int, int]
  ghost inAt fn[int, int]
  ghost outOf fn[int, int]
  ghost outAt fn[int, int]
  ghost off fn[int, fn[testlang.NodeID, int]]
  ghost src fn[testlang.NodeID, fn[int, int]]
  requires c != nil && nothingYet(*c) && separate(*c)
  modifies c, c.InMerged, c.Channels, c.In, c.Out
  step inOf = ite(isIn(c.All[ITER]), upd(inOf, len(c.In) - 1, ITER), inOf)
  step inAt = upd(inAt, ITER, len(c.In) - 1)
  step outOf = ite(isIn(c.All[ITER]), outOf, upd(outOf, len(c.Out) - 1, ITER))
  step outAt = upd(outAt, ITER, len(c.Out) - 1)
  step off = upd(off, ITER, lam(x, testlang.NodeID, len(c.InMerged[x]) - ite(isIn(c.All[ITER]) && has(c.All[ITER].States, x), len(c.All[ITER].States[x]), 0)))
  step src = lam(x, testlang.NodeID, lam(p, int, ite(off[ITER][x] <= p, ITER, src[x][p])))
  inv all: same(c.All, old(c.All)) && same(c.InMerged, old(c.InMerged)) && c.InMerged != nil
  inv storage: (base(c.In) == base(old(c.In)) || fresh(c.In)) && (base(c.Out) == base(old(c.Out)) || fresh(c.Out)) && (base(c.Channels) == base(old(c.Channels)) || fresh(c.Channels))
  inv inputs: forall(a, 0, len(c.All), all(x, testlang.NodeID, has(c.All[a].States, x) ==> !fresh(c.All[a].States[x])))
  inv merged storage: all(x, testlang.NodeID, base(c.InMerged[x]) == 0 || fresh(c.InMerged[x]))
  inv own storage: all(x, testlang.NodeID, all(y, testlang.NodeID, base(c.InMerged[x]) != 0 && base(c.InMerged[x]) == base(c.InMerged[y]) ==> x == y))
  inv separate: separate(*c)
  inv channels: len(c.Channels) == ITER && forall(a, 0, ITER, c.Channels[a].Name == c.All[a].BaseSet.Channel.Name && c.Channels[a].Kind == c.All[a].BaseSet.Channel.Kind)
  inv split: split(*c, inOf, inAt, outOf, outAt, ITER)
  inv split all: splitAll(*c, inOf, inAt, outOf, outAt, ITER)
  inv has in: c.HasIn <==> 0 < len(c.In)
  inv merged at: mergedAt(*c, off, ITER)
  inv merged: mergedAll(*c, off, src)
  inv merged at before: mergedAt(*c, off, OUTERITER)
  inv merged before: all(x, testlang.NodeID, forall(p, 0, entry(len(c.InMerged[x])), merged(*c, off, src, x, p)))
  inv kept: all(x, testlang.NodeID, entry(len(c.InMerged[x])) <= len(c.InMerged[x]) && forall(p, 0, entry(len(c.InMerged[x])), sameTransition(c.InMerged[x][p], entry(c.InMerged[x][p]))))
  inv iterated: same(ITERATED(), c.All[OUTERITER].States) && isIn(c.All[OUTERITER]) && OUTERITER < len(c.All)
  inv merged length: all(x, testlang.NodeID, DONE(x) ==> len(c.InMerged[x]) == entry(len(c.InMerged[x])) + len(ITERATED()[x]))
  inv merged now: all(x, testlang.NodeID, DONE(x) ==> forall(p, entry(len(c.InMerged[x])), len(c.InMerged[x]), sameTransition(c.InMerged[x][p], ITERATED()[x][p - entry(len(c.InMerged[x]))])))
  inv not yet: all(x, testlang.NodeID, !DONE(x) ==> same(c.InMerged[x], entry(c.InMerged[x])))
  inv merged from: mergedFrom(*c, off, src, ITER)
  inv merged once: mergedOnce(*c, off, src, ITER)
  inv merged once before: mergedOnce(*c, off, src, OUTERITER)
  inv from before: all(x, testlang.NodeID, forall(p, 0, entry(len(c.InMerged[x])), from(*c, off, src, x, p, OUTERITER)))
  ensures merged from: mergedFrom(*c, off, src, len(c.All))
  ensures merged once: mergedOnce(*c, off, src, len(c.All))
  ensures same: same(c.All, old(c.All)) && same(c.InMerged, old(c.InMerged)) && c.FirstStateHasIn == old(c.FirstStateHasIn)
  ensures channels: len(c.Channels) == len(c.All) && forall(a, 0, len(c.All), c.Channels[a].Name == c.All[a].BaseSet.Channel.Name && c.Channels[a].Kind == c.All[a].BaseSet.Channel.Kind)
  ensures split: split(*c, inOf, inAt, outOf, outAt, len(c.All))
  ensures split all: splitAll(*c, inOf, inAt, outOf, outAt, len(c.All))
  ensures has in: c.HasIn <==> 0 < len(c.In)
  ensures merged at: mergedAt(*c, off, len(c.All))
  ensures merged: mergedAll(*c, off, src)

func firstStateHasIn(machine) r
  props C12
  requires machine != nil && forall(i, 0, len(machine.States), machine.States[i] != nil)
  inv none: forall(k, 0, ITER, machine.States[0].TransitionSets[k].BaseSet.Channel.Kind != channel.KindIn)
  ensures some input: r <==> 0 < len(machine.States) && exists(k, 0, len(machine.States[0].TransitionSets), machine.States[0].TransitionSets[k].BaseSet.Channel.Kind == channel.KindIn)

func makeTransitions(machine) c
  props C12
  ghost agg fn[int, fn[int, int]]
  ghost ofI fn[int, fn[testlang.NodeID, int]]
  ghost ofK fn[int, fn[testlang.NodeID, int]]
  ghost fi fn[int, int]
  ghost fk fn[int, int]
  ghost inOf fn[int, int]
  ghost inAt fn[int, int]
  ghost outOf fn[int, int]
  ghost outAt fn[int, int]
  ghost off fn[int, fn[testlang.NodeID, int]]
  ghost src fn[testlang.NodeID, fn[int, int]]
  requires goodMachine(machine)
  after stm.Stm.TransitionSets(s) (r): agg = its_agg
  after stm.Stm.TransitionSets(s) (r): ofI = its_ofI
  after stm.Stm.TransitionSets(s) (r): ofK = its_ofK
  after stm.Stm.TransitionSets(s) (r): fi = its_fi
  after stm.Stm.TransitionSets(s) (r): fk = its_fk
  after TransitionContext.populateFilters(t): inOf = its_inOf
  after TransitionContext.populateFilters(t): inAt = its_inAt
  after TransitionContext.populateFilters(t): outOf = its_outOf
  after TransitionContext.populateFilters(t): outAt = its_outAt
  after TransitionContext.populateFilters(t): off = its_off
  after TransitionContext.populateFilters(t): src = its_src
  ensures one per channel: distinctAggs(c.All)
  ensures every transition: forall(i, 0, len(machine.States), forall(k, 0, len(machine.States[i].TransitionSets), placed(c.All, machine, agg, i, k)))
  ensures each once: nothingElse(c.All, machine, agg, ofI, ofK, len(machine.States), 0)
  ensures first use: firstUse(c.All, agg, fi, fk) && firstOrder(c.All, fi, fk)
  ensures first: forall(i, 0, len(machine.States), forall(k, 0, len(machine.States[i].TransitionSets), !before(i, k, fi[agg[i][k]], fk[agg[i][k]])))
  ensures channels: len(c.Channels) == len(c.All) && forall(a, 0, len(c.All), c.Channels[a].Name == c.All[a].BaseSet.Channel.Name && c.Channels[a].Kind == c.All[a].BaseSet.Channel.Kind)
  ensures split: split(c, inOf, inAt, outOf, outAt, len(c.All)) && splitAll(c, inOf, inAt, outOf, outAt, len(c.All))
  ensures has in: c.HasIn <==> 0 < len(c.In)
  ensures first state has in: c.FirstStateHasIn <==> 0 < len(machine.States) && exists(k, 0, len(machine.States[0].TransitionSets), machine.States[0].TransitionSets[k].BaseSet.Channel.Kind == channel.KindIn)
  ensures merged at: mergedAt(c, off, len(c.All))
  ensures merged: mergedAll(c, off, src)
  ensures merged from: mergedFrom(c, off, src, len(c.All)) && mergedOnce(c, off, src, len(c.All))

func NewContext(name, machine) c
  props C12
  ghost agg fn[int, fn[int, int]]
  ghost ofI fn[int, fn[testlang.NodeID, int]]
  ghost ofK fn[int, fn[testlang.NodeID, int]]
  ghost fi fn[int, int]
  ghost fk fn[int, int]
  ghost inOf fn[int, int]
  ghost inAt fn[int, int]
  ghost outOf fn[int, int]
  ghost outAt fn[int, int]
  ghost off fn[int, fn[testlang.NodeID, int]]
  ghost src fn[testlang.NodeID, fn[int, int]]
  requires goodMachine(machine)
  after makeTransitions(m) (r): agg = its_agg
  after makeTransitions(m) (r): ofI = its_ofI
  after makeTransitions(m) (r): ofK = its_ofK
  after makeTransitions(m) (r): fi = its_fi
  after makeTransitions(m) (r): fk = its_fk
  after makeTransitions(m) (r): inOf = its_inOf
  after makeTransitions(m) (r): inAt = its_inAt
  after makeTransitions(m) (r): outOf = its_outOf
  after makeTransitions(m) (r): outAt = its_outAt
  after makeTransitions(m) (r): off = its_off
  after makeTransitions(m) (r): src = its_src
  ensures context: c.Stm == machine && c.Name == name
  ensures one per channel: distinctAggs(c.Transitions.All)
  ensures every transition: forall(i, 0, len(machine.States), forall(k, 0, len(machine.States[i].TransitionSets), placed(c.Transitions.All, machine, agg, i, k)))
  ensures each once: nothingElse(c.Transitions.All, machine, agg, ofI, ofK, len(machine.States), 0)
  ensures first use: firstUse(c.Transitions.All, agg, fi, fk) && firstOrder(c.Transitions.All, fi, fk)
  ensures first: forall(i, 0, len(machine.States), forall(k, 0, len(machine.States[i].TransitionSets), !before(i, k, fi[agg[i][k]], fk[agg[i][k]])))
  ensures channels: len(c.Transitions.Channels) == len(c.Transitions.All) && forall(a, 0, len(c.Transitions.All), c.Transitions.Channels[a].Name == c.Transitions.All[a].BaseSet.Channel.Name && c.Transitions.Channels[a].Kind == c.Transitions.All[a].BaseSet.Channel.Kind)
  ensures split: split(c.Transitions, inOf, inAt, outOf, outAt, len(c.Transitions.All)) && splitAll(c.Transitions, inOf, inAt, outOf, outAt, len(c.Transitions.All))
  ensures has in: c.Transitions.HasIn <==> 0 < len(c.Transitions.In)
  ensures first state has in: c.Transitions.FirstStateHasIn <==> 0 < len(machine.States) && exists(k, 0, len(machine.States[0].TransitionSets), machine.States[0].TransitionSets[k].BaseSet.Channel.Kind == channel.KindIn)
  ensures merged at: mergedAt(c.Transitions, off, len(c.Transitions.All))
  ensures merged: mergedAll(c.Transitions, off, src)
  ensures merged from: mergedFrom(c.Transitions, off, src, len(c.Transitions.All)) && mergedOnce(c.Transitions, off, src, len(c.Transitions.All))

package cpp

func NewContext(name, machine, cctx) c
  props C12
  ghost agg fn[int, fn[int, int]]
  ghost ofI fn[int, fn[testlang.NodeID, int]]
  ghost ofK fn[int, fn[testlang.NodeID, int]]
  ghost fi fn[int, int]
  ghost fk fn[int, int]
  ghost inOf fn[int, int]
  ghost inAt fn[int, int]
  ghost outOf fn[int, int]
  ghost outAt fn[int, int]
  ghost off fn[int, fn[testlang.NodeID, int]]
  ghost src fn[testlang.NodeID, fn[int, int]]
  requires goodMachine(machine)
  after gencommon.NewContext(n, m) (r): agg = its_agg
  after gencommon.NewContext(n, m) (r): ofI = its_ofI
  after gencommon.NewContext(n, m) (r): ofK = its_ofK
  after gencommon.NewContext(n, m) (r): fi = its_fi
  after gencommon.NewContext(n, m) (r): fk = its_fk
  after gencommon.NewContext(n, m) (r): inOf = its_inOf
  after gencommon.NewContext(n, m) (r): inAt = its_inAt
  after gencommon.NewContext(n, m) (r): outOf = its_outOf
  after gencommon.NewContext(n, m) (r): outAt = its_outAt
  after gencommon.NewContext(n, m) (r): off = its_off
  after gencommon.NewContext(n, m) (r): src = its_src
  ensures context: c != nil && c.Context.Stm == machine && c.Context.Name == name
  ensures one per channel: distinctAggs(c.Context.Transitions.All)
  ensures every transition: forall(i, 0, len(machine.States), forall(k, 0, len(machine.States[i].TransitionSets), placed(c.Context.Transitions.All, machine, agg, i, k)))
  ensures each once: nothingElse(c.Context.Transitions.All, machine, agg, ofI, ofK, len(machine.States), 0)
  ensures first use: firstUse(c.Context.Transitions.All, agg, fi, fk) && firstOrder(c.Context.Transitions.All, fi, fk)
  ensures first: forall(i, 0, len(machine.States), forall(k, 0, len(machine.States[i].TransitionSets), !before(i, k, fi[agg[i][k]], fk[agg[i][k]])))
  ensures channels: len(c.Context.Transitions.Channels) == len(c.Context.Transitions.All) && forall(a, 0, len(c.Context.Transitions.All), c.Context.Transitions.Channels[a].Name == c.Context.Transitions.All[a].BaseSet.Channel.Name && c.Context.Transitions.Channels[a].Kind == c.Context.Transitions.All[a].BaseSet.Channel.Kind)
  ensures split: split(c.Context.Transitions, inOf, inAt, outOf, outAt, len(c.Context.Transitions.All)) && splitAll(c.Context.Transitions, inOf, inAt, outOf, outAt, len(c.Context.Transitions.All))
  ensures has in: c.Context.Transitions.HasIn <==> 0 < len(c.Context.Transitions.In)
  ensures first state has in: c.Context.Transitions.FirstStateHasIn <==> 0 < len(machine.States) && exists(k, 0, len(machine.States[0].TransitionSets), machine.States[0].TransitionSets[k].BaseSet.Channel.Kind == channel.KindIn)
  ensures merged at: mergedAt(c.Context.Transitions, off, len(c.Context.Transitions.All))
  ensures merged: mergedAll(c.Context.Transitions, off, src)
  ensures merged from: mergedFrom(c.Context.Transitions, off, src, len(c.Context.Transitions.All)) && mergedOnce(c.Context.Transitions, off, src, len(c.Context.Transitions.All))
