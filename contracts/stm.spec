// C07, C08: state machines and verdicts

package verdict

func Verdict.Add(v, outcome, tests)
  props C08
  requires v != nil && *v != nil
  modifies (*v)
  inv added: forall(i, 0, ITER, has(*v, tests[i]) && (*v)[tests[i]] == outcome)
  inv only: all(x, string, has(*v, x) ==> entry(has(*v, x)) || exists(i, 0, ITER, tests[i] == x))
  inv kept: all(x, string, entry(has(*v, x)) ==> has(*v, x) && ((*v)[x] == entry((*v)[x]) || exists(i, 0, ITER, tests[i] == x)))
  ensures same map: same(*v, old(*v))
  ensures added: forall(i, 0, len(tests), has(*v, tests[i]) && (*v)[tests[i]] == outcome)
  ensures only: all(x, string, has(*v, x) ==> old(has(*v, x)) || exists(i, 0, len(tests), tests[i] == x))
  ensures kept: all(x, string, old(has(*v, x)) ==> has(*v, x) && ((*v)[x] == old((*v)[x]) || exists(i, 0, len(tests), tests[i] == x)))

func Verdict.Is(v, status) result
  props C08
  requires v != nil
  inv none so far: all(x, string, DONE(x) ==> (*v)[x] != status)
  ensures some such test: result <==> existskey(x, *v, (*v)[x] == status)

func Verdict.SetOf(v, status) result
  props C08
  requires v != nil
  inv{s:structure.Set[string]} members: all(x, string, has(s.contents, x) && s.contents[x] ==> has(*v, x) && (*v)[x] == status)
  inv{s:structure.Set[string]} all: all(x, string, DONE(x) && (*v)[x] == status ==> has(s.contents, x) && s.contents[x])
  inv{s:structure.Set[string]} fresh: fresh(s.contents)
  ensures fresh: fresh(result.contents)
  ensures exactly those: all(x, string, has(result.contents, x) && result.contents[x] <==> has(*v, x) && (*v)[x] == status)

func Verdict.Tests(v) result
  props C08
  requires v != nil
  inv{r:[]string} members: forall(i, 0, len(r), DONE(r[i]) && has(*v, r[i]))
  inv{r:[]string} all: all(x, string, DONE(x) ==> exists(i, 0, len(r), r[i] == x))
  inv{r:[]string} once: forall(i, 0, len(r), forall(j, 0, len(r), r[i] == r[j] ==> i == j))
  ensures members: forall(i, 0, len(result), has(*v, result[i]))
  ensures all: forallkey(x, *v, exists(i, 0, len(result), result[i] == x))
  ensures once: forall(i, 0, len(result), forall(j, 0, len(result), result[i] == result[j] ==> i == j))

func Verdict.Inc(v) result
  props C08
  requires v != nil
  ensures exactly those: all(x, string, has(result.contents, x) && result.contents[x] <==> has(*v, x) && (*v)[x] == testlang.OutcomeInc)

func Verdict.IsInc(v) result
  props C08
  requires v != nil
  ensures some such test: result <==> existskey(x, *v, (*v)[x] == testlang.OutcomeInc)

func Verdict.Pass(v) result
  props C08
  requires v != nil
  ensures exactly those: all(x, string, has(result.contents, x) && result.contents[x] <==> has(*v, x) && (*v)[x] == testlang.OutcomePass)

func Verdict.IsPass(v) result
  props C08
  requires v != nil
  ensures some such test: result <==> existskey(x, *v, (*v)[x] == testlang.OutcomePass)

func Verdict.Fail(v) result
  props C08
  requires v != nil
  ensures exactly those: all(x, string, has(result.contents, x) && result.contents[x] <==> has(*v, x) && (*v)[x] == testlang.OutcomeFail)

func Verdict.IsFail(v) result
  props C08
  requires v != nil
  ensures some such test: result <==> existskey(x, *v, (*v)[x] == testlang.OutcomeFail)

package transition

spec onChannel(s Set, c channel.Channel) bool = s.BaseSet.Channel.Name == c.Name && s.BaseSet.Channel.Kind == c.Kind
spec distinctChannels(sets []Set) bool = forall(i, 0, len(sets), forall(j, 0, len(sets), onChannel(sets[i], sets[j].BaseSet.Channel) ==> i == j))
spec ownStorage(sets []Set) bool = forall(i, 0, len(sets), forall(j, 0, len(sets), i == j || base(sets[i].Transitions) == 0 || base(sets[i].Transitions) != base(sets[j].Transitions)))
spec sameTransition(a Transition, b Transition) bool = a.Next == b.Next && same(a.Value, b.Value)

func AddToSets(sets, channel, transition) result
  props C07
  requires distinctChannels(sets) && ownStorage(sets)
  modifies sets, each(j, 0, len(sets), sets[j].Transitions)
  inv not yet: forall(j, 0, ITER, !onChannel(sets[j], channel))
  ensures added: forall(j, 0, len(sets), old(onChannel(sets[j], channel)) ==> len(result) == len(sets) && len(result[j].Transitions) == old(len(sets[j].Transitions)) + 1 && sameTransition(result[j].Transitions[old(len(sets[j].Transitions))], transition))
  ensures new set: forall(j, 0, len(sets), !old(onChannel(sets[j], channel))) ==> len(result) == len(sets) + 1 && onChannel(result[len(sets)], channel) && len(result[len(sets)].Transitions) == 1 && sameTransition(result[len(sets)].Transitions[0], transition)
  ensures one more at most: len(result) == len(sets) || len(result) == len(sets) + 1
  ensures channels: forall(j, 0, len(sets), onChannel(result[j], old(sets[j].BaseSet.Channel)))
  ensures kept: forall(j, 0, len(sets), old(len(sets[j].Transitions)) <= len(result[j].Transitions) && (old(len(sets[j].Transitions)) == len(result[j].Transitions) || old(onChannel(sets[j], channel))) && forall(p, 0, old(len(sets[j].Transitions)), sameTransition(result[j].Transitions[p], old(sets[j].Transitions[p]))))
  ensures distinct: distinctChannels(result)
  ensures own storage: ownStorage(result)
  ensures storage: base(result) == base(sets) || fresh(result)
  ensures storage of sets: forall(j, 0, len(result), base(result[j].Transitions) == 0 || fresh(result[j].Transitions) || j < len(sets) && base(result[j].Transitions) == old(base(sets[j].Transitions)))

package stm

func NewState(id) s
  props C07 C08
  ensures new: fresh(s) && s.ID == id && fresh(s.Verdict) && fresh(*s.Verdict)
  ensures own storage: base(s.TransitionSets) == 0 || fresh(s.TransitionSets)
  ensures empty: len(s.TransitionSets) == 0 && all(x, string, !has(*s.Verdict, x))

spec live(n *testlang.Node) bool = n.Outcome != testlang.OutcomeFail

// Test x is named on n.
spec names(n *testlang.Node, x string) bool = exists(q, 0, len(n.Tests), n.Tests[q] == x)

func State.addVerdictsFromNode(s, node)
  props C08
  requires s != nil && s.Verdict != nil && *s.Verdict != nil && node != nil
  modifies (*s.Verdict)
  ensures named: all(x, string, names(node, x) ==> has(*s.Verdict, x) && (*s.Verdict)[x] == node.Outcome)
  ensures others: all(x, string, !names(node, x) ==> has(*s.Verdict, x) == old(has(*s.Verdict, x)) && (*s.Verdict)[x] == old((*s.Verdict)[x]))

// Every continuation of n which is not failing has an event.
spec eventsBelow(n *testlang.Node) bool = forall(j, 0, len(n.Next), live(&n.Next[j]) ==> n.Next[j].Event != nil)

// The verdict says what the continuations say, who naming the last one for each test.
spec verdictOK(s *State, who fn[string, int]) bool = all(x, string, has(*s.Verdict, x) <==> 0 <= who[x])
spec namedThere(n *testlang.Node, who fn[string, int], k int) bool = all(x, string, who[x] < k && (0 <= who[x] ==> names(&n.Next[who[x]], x)))
spec verdictsOf(s *State, n *testlang.Node, who fn[string, int]) bool = all(x, string, has(*s.Verdict, x) ==> (*s.Verdict)[x] == n.Next[who[x]].Outcome)
spec lastNames(n *testlang.Node, who fn[string, int], k int) bool = all(x, string, forall(j, 0, k, names(&n.Next[j], x) ==> j <= who[x]))

// The transitions are those to the first k continuations: continuation j's is at position pos[j] of set at[j], and position p of set i is continuation from[i][p]'s.
spec distinctSets(s *State) bool = distinctChannels(s.TransitionSets)
spec hasTransitions(s *State, n *testlang.Node, at fn[int, int], pos fn[int, int], k int) bool = forall(j, 0, k, live(&n.Next[j]) ==> 0 <= at[j] && at[j] < len(s.TransitionSets) && 0 <= pos[j] && pos[j] < len(s.TransitionSets[at[j]].Transitions))
spec onChannels(s *State, n *testlang.Node, at fn[int, int], k int) bool = forall(j, 0, k, live(&n.Next[j]) ==> onChannel(s.TransitionSets[at[j]], n.Next[j].Event.Channel))
spec withValues(s *State, n *testlang.Node, at fn[int, int], pos fn[int, int], k int) bool = forall(j, 0, k, live(&n.Next[j]) ==> same(s.TransitionSets[at[j]].Transitions[pos[j]].Value, n.Next[j].Event.Value) && s.TransitionSets[at[j]].Transitions[pos[j]].Next == n.Next[j].ID)
spec noOthers(s *State, n *testlang.Node, at fn[int, int], pos fn[int, int], from fn[int, fn[int, int]], k int) bool = forall(i, 0, len(s.TransitionSets), forall(p, 0, len(s.TransitionSets[i].Transitions), 0 <= from[i][p] && from[i][p] < k && live(&n.Next[from[i][p]]) && at[from[i][p]] == i && pos[from[i][p]] == p))
spec eachOnce(s *State, n *testlang.Node, at fn[int, int], pos fn[int, int], from fn[int, fn[int, int]], k int) bool = forall(j, 0, k, live(&n.Next[j]) ==> from[at[j]][pos[j]] == j)
spec setsOwned(s *State) bool = forall(i, 0, len(s.TransitionSets), base(s.TransitionSets[i].Transitions) == 0 || fresh(s.TransitionSets[i].Transitions))

// The names of unnamed nodes.
spec stepName(n int) string = "step" + fn("itoa", string, n)

lemma StepNames(a int, b int)
  props C07
  ensures distinct: stepName(a) == stepName(b) ==> a == b
  ensures not the first: stepName(a) != "initial"
  ensures not empty: stepName(a) != ""

// Numbers wrap around after that many: no machine has memory for so many nodes.
spec roomFor(n int) bool = n < 9223372036854775807

func Builder.ensureNodeID(b, n)
  props C07
  requires b != nil && n != nil
  modifies b, *n
  ensures named: n.ID != ""
  ensures kept: old(n.ID) != "" ==> n.ID == old(n.ID) && b.nodeNum == old(b.nodeNum)
  ensures next number: old(n.ID) == "" && roomFor(old(b.nodeNum)) ==> n.ID == stepName(old(b.nodeNum)) && b.nodeNum == old(b.nodeNum) + 1

func Builder.buildState(b, node) s
  props C07 C08
  ghost who fn[string, int] = always(string, 0 - 1)
  ghost now int = 0 - 1
  ghost to int = 0
  ghost at fn[int, int] = always(int, 0)
  ghost pos fn[int, int] = always(int, 0)
  ghost from fn[int, fn[int, int]]
  ghost num fn[*testlang.Node, int] = always(*testlang.Node, 0 - 1)
  ghost place fn[*testlang.Node, int] = always(*testlang.Node, 0 - 1)
  ghost few bool = true
  requires b != nil && node != nil && b.stm.Tests.contents != nil && node.ID != ""
  requires eventsBelow(node)
  modifies b, node.Next, b.stm.Tests.contents
  after Builder.ensureNodeID(bb, n): few = few && roomFor(old(bb.nodeNum))
  after Builder.ensureNodeID(bb, n): num = upd(num, n, ite(old(n.ID) == "", bb.nodeNum - 1, num[n]))
  after Builder.ensureNodeID(bb, n): place = upd(place, n, now + 1)
  after State.addVerdictsFromNode(st, n): now = now + 1
  after State.addVerdictsFromNode(st, n): who = lam(x, string, ite(names(n, x), now, who[x]))
  after transition.AddToSets(sets, ch, tr) (r): to = choose(i, int, 0 <= i && i < len(r) && onChannel(r[i], ch))
  after transition.AddToSets(sets, ch, tr) (r): at = upd(at, now, to)
  after transition.AddToSets(sets, ch, tr) (r): pos = upd(pos, now, len(r[to].Transitions) - 1)
  after transition.AddToSets(sets, ch, tr) (r): from = upd(from, to, upd(from[to], len(r[to].Transitions) - 1, now))
  inv count: now == ITER - 1
  inv named: forall(j, 0, ITER, node.Next[j].ID != "")
  inv kept names: all(m, *testlang.Node, entry(alloced(m)) && entry(m.ID) != "" ==> m.ID == entry(m.ID))
  inv numbers: few ==> entry(b.nodeNum) <= b.nodeNum && all(m, *testlang.Node, entry(alloced(m)) && entry(m.ID) == "" && m.ID != "" ==> m.ID == stepName(num[m]) && entry(b.nodeNum) <= num[m] && num[m] < b.nodeNum)
  inv places: all(m, *testlang.Node, entry(alloced(m)) && m.ID != entry(m.ID) ==> 0 <= place[m] && place[m] < ITER && m == &node.Next[place[m]])
  inv newly named: few ==> all(m, *testlang.Node, 0 <= num[m] ==> entry(m.ID) == "" && m.ID != "" && entry(alloced(m)))
  inv different names: few ==> all(m, *testlang.Node, all(o, *testlang.Node, entry(alloced(m)) && entry(m.ID) == "" && m.ID != "" && entry(alloced(o)) && entry(o.ID) == "" && o.ID != "" && num[m] == num[o] ==> m == o))
  inv tests: all(x, string, has(b.stm.Tests.contents, x) && b.stm.Tests.contents[x] <==> entry(has(b.stm.Tests.contents, x) && b.stm.Tests.contents[x]) || 0 <= who[x])
  inv{s:*State} verdict: verdictOK(s, who)
  inv named there: namedThere(node, who, ITER)
  inv{s:*State} outcomes: verdictsOf(s, node, who)
  inv last: lastNames(node, who, ITER)
  inv{s:*State} new: fresh(s) && s.ID == node.ID && node.ID == entry(node.ID) && fresh(s.Verdict) && fresh(*s.Verdict)
  inv{s:*State} sets: distinctSets(s)
  inv{s:*State} apart: ownStorage(s.TransitionSets)
  inv{s:*State} own list: base(s.TransitionSets) == 0 || fresh(s.TransitionSets)
  inv{s:*State} owned: setsOwned(s)
  inv{s:*State} transitions: hasTransitions(s, node, at, pos, ITER)
  inv{s:*State} channels: onChannels(s, node, at, ITER)
  inv{s:*State} values: withValues(s, node, at, pos, ITER)
  inv{s:*State} no others: noOthers(s, node, at, pos, from, ITER)
  inv{s:*State} each once: eachOnce(s, node, at, pos, from, ITER)
  ensures new: fresh(s) && s.ID == node.ID && node.ID == old(node.ID)
  ensures own verdict: fresh(s.Verdict) && fresh(*s.Verdict)
  ensures verdict: verdictOK(s, who)
  ensures named there: namedThere(node, who, len(node.Next))
  ensures outcomes: verdictsOf(s, node, who)
  ensures last: lastNames(node, who, len(node.Next))
  ensures sets: distinctSets(s)
  ensures transitions: hasTransitions(s, node, at, pos, len(node.Next))
  ensures channels: onChannels(s, node, at, len(node.Next))
  ensures values: withValues(s, node, at, pos, len(node.Next))
  ensures no others: noOthers(s, node, at, pos, from, len(node.Next))
  ensures each once: eachOnce(s, node, at, pos, from, len(node.Next))
  ensures named: forall(j, 0, len(node.Next), node.Next[j].ID != "")
  ensures kept names: all(m, *testlang.Node, old(alloced(m)) && old(m.ID) != "" ==> m.ID == old(m.ID))
  ensures numbers: few ==> old(b.nodeNum) <= b.nodeNum && all(m, *testlang.Node, old(alloced(m)) && old(m.ID) == "" && m.ID != "" ==> m.ID == stepName(num[m]) && old(b.nodeNum) <= num[m] && num[m] < b.nodeNum)
  ensures places: all(m, *testlang.Node, old(alloced(m)) && m.ID != old(m.ID) ==> 0 <= place[m] && place[m] < len(node.Next) && m == &node.Next[place[m]])
  ensures newly named: few ==> all(m, *testlang.Node, 0 <= num[m] ==> old(m.ID) == "" && m.ID != "" && old(alloced(m)))
  ensures different names: few ==> all(m, *testlang.Node, all(o, *testlang.Node, old(alloced(m)) && old(m.ID) == "" && m.ID != "" && old(alloced(o)) && old(o.ID) == "" && o.ID != "" && num[m] == num[o] ==> m == o))
  ensures tests: all(x, string, has(b.stm.Tests.contents, x) && b.stm.Tests.contents[x] <==> old(has(b.stm.Tests.contents, x) && b.stm.Tests.contents[x]) || 0 <= who[x])

// One letter per node again: the live nodes below n, each before those below its continuations, the last continuation first.
rec order(n *testlang.Node) string = ite(live(n), letter(n) + orders(n, len(n.Next)), "")
rec orders(n *testlang.Node, k int) string = ite(k <= 0, "", order(&n.Next[k - 1]) + orders(n, k - 1))

// The root is not a continuation of a node below n.
rec notBelow(n *testlang.Node, root *testlang.Node) bool = forall(i, 0, len(n.Next), &n.Next[i] != root && notBelow(&n.Next[i], root))

spec ready(n *testlang.Node, root *testlang.Node) bool = n != nil && okTree(n, root) && notBelow(n, root)

// What is pending on the stack s, if pending says what lies below each position.
spec ordersOK(s structure.Stack[*testlang.Node], pending fn[int, string]) bool = pending[0] == "" && forall(j, 0, len(s.items), pending[j + 1] == order(s.items[j]) + pending[j])

// State i of a machine is made from node nodeOf[i]; continuation whoOf[i][x] of it is the last one naming test x (-1: none does).
spec fromNodes(sts []*State, nodeOf fn[int, *testlang.Node]) bool = forall(i, 0, len(sts), sts[i] != nil && nodeOf[i] != nil && live(nodeOf[i]) && sts[i].Verdict != nil)
spec sameIDs(sts []*State, nodeOf fn[int, *testlang.Node]) bool = forall(i, 0, len(sts), sts[i].ID == nodeOf[i].ID)
spec allVerdicts(sts []*State, whoOf fn[int, fn[string, int]]) bool = forall(i, 0, len(sts), verdictOK(sts[i], whoOf[i]))
spec allNamed(sts []*State, nodeOf fn[int, *testlang.Node], whoOf fn[int, fn[string, int]]) bool = forall(i, 0, len(sts), namedThere(nodeOf[i], whoOf[i], len(nodeOf[i].Next)))
spec allOutcomes(sts []*State, nodeOf fn[int, *testlang.Node], whoOf fn[int, fn[string, int]]) bool = forall(i, 0, len(sts), verdictsOf(sts[i], nodeOf[i], whoOf[i]))
spec allLast(sts []*State, nodeOf fn[int, *testlang.Node], whoOf fn[int, fn[string, int]]) bool = forall(i, 0, len(sts), lastNames(nodeOf[i], whoOf[i], len(nodeOf[i].Next)))

// The tests are those named on a continuation of a state's node: of state wit[x]'s for test x.
spec testsNamed(m Stm, wit fn[string, int]) bool = all(x, string, has(m.Tests.contents, x) && m.Tests.contents[x] <==> 0 <= wit[x])
spec witness(m Stm, whoOf fn[int, fn[string, int]], wit fn[string, int]) bool = all(x, string, wit[x] < len(m.States) && (0 <= wit[x] ==> 0 <= whoOf[wit[x]][x]))
spec noOthersNamed(m Stm, whoOf fn[int, fn[string, int]], wit fn[string, int]) bool = all(x, string, forall(i, 0, len(m.States), 0 <= whoOf[i][x] ==> 0 <= wit[x]))

// The states are those of the nodes in order, upto[i] having the letters of the first i.
spec inOrder(sts []*State, nodeOf fn[int, *testlang.Node], upto fn[int, string]) bool = upto[0] == "" && forall(i, 0, len(sts), upto[i + 1] == upto[i] + letter(nodeOf[i]))

spec typesOK(types TypeMap) bool = forallkey(c, types, types[c] != nil && typeOK(*types[c]))

func Builder.Build(b, test) (m, err)
  props C07
  ghost visited string = ""
  ghost pending fn[int, string] = always(int, "")
  ghost nodeOf fn[int, *testlang.Node]
  ghost upto fn[int, string] = always(int, "")
  requires b != nil && test != nil && test.root != nil
  requires okTree(test.root, test.root)
  requires notBelow(test.root, test.root)
  modifies b, every(testlang.Node)
  after Builder.buildState(bb, n) (s): visited = visited + letter(n)
  after Builder.buildState(bb, n) (s): nodeOf = upd(nodeOf, len(bb.stm.States), n)
  after Builder.buildState(bb, n) (s): upto = upd(upto, len(bb.stm.States) + 1, upto[len(bb.stm.States)] + letter(n))
  after structure.Stack.Push(s, n): pending = upd(pending, len(s.items), order(n) + pending[len(s.items) - 1])
  inv size: b.stack.count == len(b.stack.items) && (base(b.stack.items) == 0 || fresh(b.stack.items))
  inv nodes: forall(j, 0, len(b.stack.items), ready(b.stack.items[j], test.root))
  inv pending: ordersOK(b.stack, pending)
  inv top: 0 < len(b.stack.items) ==> pending[len(b.stack.items)] == order(b.stack.items[len(b.stack.items) - 1]) + pending[len(b.stack.items) - 1]
  inv ready: 0 < len(b.stack.items) ==> ready(b.stack.items[len(b.stack.items) - 1], test.root)
  inv named: forall(j, 0, len(b.stack.items), b.stack.items[j].ID != "")
  inv rest: visited + pending[len(b.stack.items)] == order(test.root)
  inv{n:*testlang.Node} ready here: ready(n, test.root) && live(n)
  inv{n:*testlang.Node} named below: forall(j, 0, len(n.Next), n.Next[j].ID != "")
  inv{n:*testlang.Node} ready below: forall(j, 0, len(n.Next), ready(&n.Next[j], test.root))
  inv{n:*testlang.Node} pending below: pending[len(b.stack.items)] == orders(n, ITER) + pending[len(b.stack.items) - ITER]
  inv{n:*testlang.Node} rest with continuations: visited + (orders(n, len(n.Next)) + pending[len(b.stack.items) - ITER]) == order(test.root)
  inv states: forall(i, 0, len(b.stm.States), b.stm.States[i] != nil && nodeOf[i] != nil && alloced(nodeOf[i]))
  inv ids: forall(i, 0, len(b.stm.States), nodeOf[i].ID != "")
  inv same ids: sameIDs(b.stm.States, nodeOf)
  inv order: inOrder(b.stm.States, nodeOf, upto)
  inv so far: upto[len(b.stm.States)] == visited
  inv root: test.root.ID == "initial"
  inv first: 0 < len(b.stm.States) ==> nodeOf[0] == test.root
  inv before the first: len(b.stm.States) == 0 ==> len(b.stack.items) == 1 && b.stack.items[0] == test.root
  inv list: base(b.stm.States) == 0 || fresh(b.stm.States)
  inv sets: b.stm.Tests.contents != nil && fresh(b.stm.Tests.contents) && b.stm.Types != nil && fresh(b.stm.Types)
  inv types: forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  ensures only ids: all(n, *testlang.Node, old(alloced(n)) ==> n.Outcome == old(n.Outcome) && n.Event == old(n.Event) && same(n.Tests, old(n.Tests)) && same(n.Next, old(n.Next)))
  ensures types: err == nil ==> typesOK(m.Types)
  ensures states of nodes: err == nil ==> forall(i, 0, len(m.States), m.States[i] != nil && nodeOf[i] != nil)
  ensures ids of nodes: err == nil ==> sameIDs(m.States, nodeOf)
  ensures in order: err == nil ==> inOrder(m.States, nodeOf, upto)
  ensures every live node: err == nil ==> upto[len(m.States)] == order(test.root)
  ensures initial: err == nil ==> 0 < len(m.States) && nodeOf[0] == test.root && m.States[0].ID == "initial"

func Builder.Build(b, test) (m, err)
  aspect verdicts
  props C08
  ghost nodeOf fn[int, *testlang.Node]
  ghost whoOf fn[int, fn[string, int]]
  ghost wit fn[string, int] = always(string, 0 - 1)
  requires b != nil && test != nil && test.root != nil
  requires okTree(test.root, test.root)
  requires notBelow(test.root, test.root)
  modifies b, every(testlang.Node)
  after Builder.buildState(bb, n) (s): nodeOf = upd(nodeOf, len(bb.stm.States), n)
  after Builder.buildState(bb, n) (s): whoOf = upd(whoOf, len(bb.stm.States), its_who)
  after Builder.buildState(bb, n) (s): wit = lam(x, string, ite(0 <= its_who[x], len(bb.stm.States), wit[x]))
  inv size: b.stack.count == len(b.stack.items) && (base(b.stack.items) == 0 || fresh(b.stack.items))
  inv nodes: forall(j, 0, len(b.stack.items), ready(b.stack.items[j], test.root))
  inv ready: 0 < len(b.stack.items) ==> ready(b.stack.items[len(b.stack.items) - 1], test.root)
  inv named: forall(j, 0, len(b.stack.items), b.stack.items[j].ID != "")
  inv{n:*testlang.Node} ready here: ready(n, test.root) && live(n)
  inv{n:*testlang.Node} named below: forall(j, 0, len(n.Next), n.Next[j].ID != "")
  inv{n:*testlang.Node} ready below: forall(j, 0, len(n.Next), ready(&n.Next[j], test.root))
  inv list: base(b.stm.States) == 0 || fresh(b.stm.States)
  inv sets: b.stm.Tests.contents != nil && fresh(b.stm.Tests.contents) && b.stm.Types != nil && fresh(b.stm.Types)
  inv types: forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  inv from nodes: fromNodes(b.stm.States, nodeOf)
  inv same ids: sameIDs(b.stm.States, nodeOf)
  inv ids: forall(i, 0, len(b.stm.States), alloced(nodeOf[i]) && nodeOf[i].ID != "")
  inv verdicts: allVerdicts(b.stm.States, whoOf)
  inv named there: allNamed(b.stm.States, nodeOf, whoOf)
  inv outcomes: allOutcomes(b.stm.States, nodeOf, whoOf)
  inv last: allLast(b.stm.States, nodeOf, whoOf)
  inv tests: testsNamed(b.stm, wit)
  inv witness: witness(b.stm, whoOf, wit)
  inv no others: noOthersNamed(b.stm, whoOf, wit)
  ensures types: err == nil ==> typesOK(m.Types)
  ensures states of nodes: err == nil ==> fromNodes(m.States, nodeOf)
  ensures ids of nodes: err == nil ==> sameIDs(m.States, nodeOf)
  ensures verdicts: err == nil ==> allVerdicts(m.States, whoOf)
  ensures named there: err == nil ==> allNamed(m.States, nodeOf, whoOf)
  ensures outcomes: err == nil ==> allOutcomes(m.States, nodeOf, whoOf)
  ensures last: err == nil ==> allLast(m.States, nodeOf, whoOf)
  ensures tests: err == nil ==> testsNamed(m, wit)
  ensures witness: err == nil ==> witness(m, whoOf, wit)
  ensures no others: err == nil ==> noOthersNamed(m, whoOf, wit)

// Every state's transitions are those to the live continuations of its node, each once.
spec allSets(sts []*State) bool = forall(i, 0, len(sts), sts[i] != nil && distinctSets(sts[i]))
spec allTransitions(sts []*State, nodeOf fn[int, *testlang.Node], atOf fn[int, fn[int, int]], posOf fn[int, fn[int, int]]) bool = forall(i, 0, len(sts), hasTransitions(sts[i], nodeOf[i], atOf[i], posOf[i], len(nodeOf[i].Next)))
spec allChannels(sts []*State, nodeOf fn[int, *testlang.Node], atOf fn[int, fn[int, int]]) bool = forall(i, 0, len(sts), onChannels(sts[i], nodeOf[i], atOf[i], len(nodeOf[i].Next)))
spec allValues(sts []*State, nodeOf fn[int, *testlang.Node], atOf fn[int, fn[int, int]], posOf fn[int, fn[int, int]]) bool = forall(i, 0, len(sts), withValues(sts[i], nodeOf[i], atOf[i], posOf[i], len(nodeOf[i].Next)))
spec allNoOthers(sts []*State, nodeOf fn[int, *testlang.Node], atOf fn[int, fn[int, int]], posOf fn[int, fn[int, int]], fromOf fn[int, fn[int, fn[int, int]]]) bool = forall(i, 0, len(sts), noOthers(sts[i], nodeOf[i], atOf[i], posOf[i], fromOf[i], len(nodeOf[i].Next)))
spec allEachOnce(sts []*State, nodeOf fn[int, *testlang.Node], atOf fn[int, fn[int, int]], posOf fn[int, fn[int, int]], fromOf fn[int, fn[int, fn[int, int]]]) bool = forall(i, 0, len(sts), eachOnce(sts[i], nodeOf[i], atOf[i], posOf[i], fromOf[i], len(nodeOf[i].Next)))

func Builder.Build(b, test) (m, err)
  aspect transitions
  props C07
  ghost nodeOf fn[int, *testlang.Node]
  ghost atOf fn[int, fn[int, int]]
  ghost posOf fn[int, fn[int, int]]
  ghost fromOf fn[int, fn[int, fn[int, int]]]
  requires b != nil && test != nil && test.root != nil
  requires okTree(test.root, test.root)
  requires notBelow(test.root, test.root)
  modifies b, every(testlang.Node)
  after Builder.buildState(bb, n) (s): nodeOf = upd(nodeOf, len(bb.stm.States), n)
  after Builder.buildState(bb, n) (s): atOf = upd(atOf, len(bb.stm.States), its_at)
  after Builder.buildState(bb, n) (s): posOf = upd(posOf, len(bb.stm.States), its_pos)
  after Builder.buildState(bb, n) (s): fromOf = upd(fromOf, len(bb.stm.States), its_from)
  inv size: b.stack.count == len(b.stack.items) && (base(b.stack.items) == 0 || fresh(b.stack.items))
  inv nodes: forall(j, 0, len(b.stack.items), ready(b.stack.items[j], test.root))
  inv ready: 0 < len(b.stack.items) ==> ready(b.stack.items[len(b.stack.items) - 1], test.root)
  inv named: forall(j, 0, len(b.stack.items), b.stack.items[j].ID != "")
  inv{n:*testlang.Node} ready here: ready(n, test.root) && live(n)
  inv{n:*testlang.Node} named below: forall(j, 0, len(n.Next), n.Next[j].ID != "")
  inv{n:*testlang.Node} ready below: forall(j, 0, len(n.Next), ready(&n.Next[j], test.root))
  inv list: base(b.stm.States) == 0 || fresh(b.stm.States)
  inv sets: b.stm.Tests.contents != nil && fresh(b.stm.Tests.contents) && b.stm.Types != nil && fresh(b.stm.Types)
  inv types: forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  inv from nodes: fromNodes(b.stm.States, nodeOf)
  inv same ids: sameIDs(b.stm.States, nodeOf)
  inv ids: forall(i, 0, len(b.stm.States), alloced(nodeOf[i]) && nodeOf[i].ID != "")
  inv ids below: forall(i, 0, len(b.stm.States), forall(j, 0, len(nodeOf[i].Next), alloced(&nodeOf[i].Next[j]) && nodeOf[i].Next[j].ID != ""))
  inv distinct channels: allSets(b.stm.States)
  inv transitions: allTransitions(b.stm.States, nodeOf, atOf, posOf)
  inv channels: allChannels(b.stm.States, nodeOf, atOf)
  inv values: allValues(b.stm.States, nodeOf, atOf, posOf)
  inv no others: allNoOthers(b.stm.States, nodeOf, atOf, posOf, fromOf)
  inv each once: allEachOnce(b.stm.States, nodeOf, atOf, posOf, fromOf)
  ensures types: err == nil ==> typesOK(m.Types)
  ensures states of nodes: err == nil ==> fromNodes(m.States, nodeOf)
  ensures ids of nodes: err == nil ==> sameIDs(m.States, nodeOf)
  ensures distinct channels: err == nil ==> allSets(m.States)
  ensures transitions: err == nil ==> allTransitions(m.States, nodeOf, atOf, posOf)
  ensures channels: err == nil ==> allChannels(m.States, nodeOf, atOf)
  ensures values: err == nil ==> allValues(m.States, nodeOf, atOf, posOf)
  ensures no others: err == nil ==> allNoOthers(m.States, nodeOf, atOf, posOf, fromOf)
  ensures each once: err == nil ==> allEachOnce(m.States, nodeOf, atOf, posOf, fromOf)

// No node is in two places: each continuation has one parent, and the root is in no one's continuations. Which nodes belong to the tree of root is what treeOf says.
spec parentOf(n *testlang.Node) *testlang.Node = fn("parent", *testlang.Node, n)
spec treeOf(n *testlang.Node) *testlang.Node = fn("treeOf", *testlang.Node, n)
// Which nodes those of the tree are, with one parent each.
spec inTree(n *testlang.Node, root *testlang.Node) bool = treeOf(n) == root

// Node c needs no state, or has one, or is yet to come on the stack.
spec reached(c *testlang.Node, seen fn[*testlang.Node, int], pend fn[*testlang.Node, bool]) bool = !live(c) || 0 <= seen[c] || pend[c]

func Builder.Build(b, test) (m, err)
  aspect identifiers
  props C07
  ghost nodeOf fn[int, *testlang.Node]
  ghost seen fn[*testlang.Node, int] = always(*testlang.Node, 0 - 1)
  ghost where fn[*testlang.Node, int] = always(*testlang.Node, 0 - 1)
  ghost number fn[*testlang.Node, int] = always(*testlang.Node, 0 - 1)
  ghost few bool = true
  ghost start int = 0
  ghost pend fn[*testlang.Node, bool] = always(*testlang.Node, false)
  requires b != nil && test != nil && test.root != nil
  requires okTree(test.root, test.root)
  requires notBelow(test.root, test.root)
  requires inTree(test.root, test.root)
  requires all(n, *testlang.Node, forall(i, 0, len(n.Next), inTree(n, test.root) ==> inTree(&n.Next[i], test.root) && parentOf(&n.Next[i]) == n))
  requires all(n, *testlang.Node, inTree(n, test.root) ==> alloced(n))
  requires all(n, *testlang.Node, treeOf(n) == test.root && n != test.root ==> n.ID == "")
  modifies b, every(testlang.Node)
  after Builder.buildState(bb, n) (s): nodeOf = lam(i, int, ite(i == len(bb.stm.States), n, nodeOf[i]))
  after Builder.buildState(bb, n) (s): seen = lam(x, *testlang.Node, ite(x == n, len(bb.stm.States), seen[x]))
  after Builder.buildState(bb, n) (s): number = lam(x, *testlang.Node, ite(0 <= its_num[x], its_num[x], number[x]))
  after Builder.buildState(bb, n) (s): start = len(bb.stack.items)
  after Builder.buildState(bb, n) (s): few = few && its_few
  after structure.Stack.Push(s, n): where = lam(x, *testlang.Node, ite(x == n, len(s.items) - 1, where[x]))
  after structure.Stack.Push(s, n): pend = lam(x, *testlang.Node, x == n || pend[x])
  after structure.Stack.Pop(s) (r): pend = lam(x, *testlang.Node, x != r && pend[x])
  inv size: b.stack.count == len(b.stack.items) && (base(b.stack.items) == 0 || fresh(b.stack.items))
  inv nodes: forall(j, 0, len(b.stack.items), ready(b.stack.items[j], test.root))
  inv ready: 0 < len(b.stack.items) ==> ready(b.stack.items[len(b.stack.items) - 1], test.root)
  inv named: forall(j, 0, len(b.stack.items), b.stack.items[j].ID != "")
  inv{n:*testlang.Node} ready here: ready(n, test.root) && live(n)
  inv{n:*testlang.Node} named below: forall(j, 0, len(n.Next), n.Next[j].ID != "")
  inv{n:*testlang.Node} ready below: forall(j, 0, len(n.Next), ready(&n.Next[j], test.root))
  inv list: base(b.stm.States) == 0 || fresh(b.stm.States)
  inv sets: b.stm.Tests.contents != nil && fresh(b.stm.Tests.contents) && b.stm.Types != nil && fresh(b.stm.Types)
  inv types: forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  inv from nodes: fromNodes(b.stm.States, nodeOf)
  inv same ids: sameIDs(b.stm.States, nodeOf)
  inv ids: forall(i, 0, len(b.stm.States), alloced(nodeOf[i]) && nodeOf[i].ID != "")
  inv root: test.root.ID == "initial"
  inv tree: all(n, *testlang.Node, forall(i, 0, len(n.Next), inTree(n, test.root) ==> inTree(&n.Next[i], test.root) && parentOf(&n.Next[i]) == n))
  inv tree alloced: all(n, *testlang.Node, inTree(n, test.root) ==> alloced(n))
  inv tree nodes: forall(j, 0, len(b.stack.items), alloced(b.stack.items[j]) && inTree(b.stack.items[j], test.root))
  inv tree top: 0 < len(b.stack.items) ==> alloced(b.stack.items[len(b.stack.items) - 1]) && inTree(b.stack.items[len(b.stack.items) - 1], test.root)
  inv{n:*testlang.Node} tree here: alloced(n) && inTree(n, test.root)
  inv in the tree: forall(i, 0, len(b.stm.States), inTree(nodeOf[i], test.root))
  inv seen nodes: forall(i, 0, len(b.stm.States), seen[nodeOf[i]] == i)
  inv only seen: all(x, *testlang.Node, 0 <= seen[x] ==> seen[x] < len(b.stm.States) && nodeOf[seen[x]] == x)
  inv on the stack: forall(j, 0, len(b.stack.items), seen[b.stack.items[j]] < 0)
  inv where: forall(j, 0, len(b.stack.items), where[b.stack.items[j]] == j)
  inv top: 0 < len(b.stack.items) ==> where[b.stack.items[len(b.stack.items) - 1]] == len(b.stack.items) - 1 && seen[b.stack.items[len(b.stack.items) - 1]] < 0
  inv parent of top: 0 < len(b.stack.items) ==> b.stack.items[len(b.stack.items) - 1] == test.root || 0 <= seen[parentOf(b.stack.items[len(b.stack.items) - 1])]
  inv parents: forall(j, 0, len(b.stack.items), b.stack.items[j] == test.root || 0 <= seen[parentOf(b.stack.items[j])])
  inv parents of seen: all(p, *testlang.Node, forall(i, 0, len(p.Next), inTree(p, test.root) && 0 <= seen[&p.Next[i]] && &p.Next[i] != test.root ==> 0 <= seen[p]))
  inv{n:*testlang.Node} this: 0 < len(b.stm.States) && nodeOf[len(b.stm.States) - 1] == n && seen[n] == len(b.stm.States) - 1
  inv{n:*testlang.Node} not yet: forall(j, 0, len(n.Next), seen[&n.Next[j]] < 0)
  inv{n:*testlang.Node} started: start == len(b.stack.items) - ITER && 0 <= start
  inv{n:*testlang.Node} other parents: forall(j, 0, start, b.stack.items[j] == test.root || parentOf(b.stack.items[j]) != n)
  inv{n:*testlang.Node} own parent: forall(j, 0, len(n.Next), &n.Next[j] != test.root && parentOf(&n.Next[j]) == n)
  inv{n:*testlang.Node} pushed: forall(j, start, len(b.stack.items), b.stack.items[j] == &n.Next[j - start])
  inv{n:*testlang.Node} pushed at: forall(j, 0, ITER, where[&n.Next[j]] == start + j)
  inv pending: all(x, *testlang.Node, pend[x] ==> 0 <= where[x] && where[x] < len(b.stack.items) && b.stack.items[where[x]] == x)
  inv reached: forall(i, 0, len(b.stm.States), forall(q, 0, len(nodeOf[i].Next), reached(&nodeOf[i].Next[q], seen, pend)))
  inv{n:*testlang.Node} reached here: forall(q, 0, ITER, pend[&n.Next[q]])
  inv{n:*testlang.Node} reached before: forall(i, 0, len(b.stm.States) - 1, forall(q, 0, len(nodeOf[i].Next), reached(&nodeOf[i].Next[q], seen, pend)))
  inv elsewhere: all(x, *testlang.Node, old(alloced(x)) && !inTree(x, test.root) ==> x.ID == old(x.ID))
  inv numbers: few ==> all(x, *testlang.Node, inTree(x, test.root) && x != test.root ==> x.ID == "" || 0 <= number[x] && x.ID == stepName(number[x]))
  inv small numbers: few ==> all(x, *testlang.Node, number[x] < b.nodeNum)
  inv different numbers: few ==> all(x, *testlang.Node, all(y, *testlang.Node, 0 <= number[x] && number[x] == number[y] ==> x == y))
  ensures elsewhere: all(x, *testlang.Node, old(alloced(x)) && !inTree(x, test.root) ==> x.ID == old(x.ID))
  ensures types: err == nil ==> typesOK(m.Types)
  ensures states of nodes: err == nil ==> fromNodes(m.States, nodeOf)
  ensures ids of nodes: err == nil ==> sameIDs(m.States, nodeOf)
  ensures different nodes: err == nil ==> forall(i, 0, len(m.States), forall(j, 0, len(m.States), nodeOf[i] == nodeOf[j] ==> i == j))
  ensures different ids: err == nil && few ==> forall(i, 0, len(m.States), forall(j, 0, len(m.States), m.States[i].ID == m.States[j].ID ==> i == j))
  ensures a state for each continuation: err == nil ==> forall(i, 0, len(m.States), forall(q, 0, len(nodeOf[i].Next), live(&nodeOf[i].Next[q]) ==> 0 <= seen[&nodeOf[i].Next[q]] && seen[&nodeOf[i].Next[q]] < len(m.States) && nodeOf[seen[&nodeOf[i].Next[q]]] == &nodeOf[i].Next[q]))

// Channel types: those of the events of the states' nodes.
spec allCovered(m Stm, nodeOf fn[int, *testlang.Node]) bool = forall(i, 0, len(m.States), nodeOf[i].Event != nil ==> has(m.Types, nodeOf[i].Event.Channel.Name) && covers(*m.Types[nodeOf[i].Event.Channel.Name], nodeOf[i].Event.Value))
// The type of channel c is that of state att[c]'s event.
spec allAttained(m Stm, nodeOf fn[int, *testlang.Node], att fn[string, int]) bool = forallkey(c, m.Types, 0 <= att[c] && att[c] < len(m.States) && nodeOf[att[c]].Event != nil && nodeOf[att[c]].Event.Channel.Name == c && attains(*m.Types[c], nodeOf[att[c]].Event.Value))

// The events of nodes n and o have values of unrelated types, on the same channel.
spec unrelated(n *testlang.Node, o *testlang.Node) bool = n != nil && o != nil && n.Event != nil && o.Event != nil && n.Event.Channel.Name == o.Event.Channel.Name && valueKind(n.Event.Value) != valueKind(o.Event.Value)

func Builder.Build(b, test) (m, err)
  aspect types
  props C09
  ghost nodeOf fn[int, *testlang.Node]
  ghost att fn[string, int] = always(string, 0)
  requires b != nil && test != nil && test.root != nil
  requires okTree(test.root, test.root)
  requires notBelow(test.root, test.root)
  modifies b, every(testlang.Node)
  after Builder.buildState(bb, n) (s): nodeOf = upd(nodeOf, len(bb.stm.States), n)
  after Builder.inferEventType(bb, e) (r): att = lam(c, string, ite(c == e.Channel.Name && attains(*bb.stm.Types[c], e.Value), len(bb.stm.States) - 1, att[c]))
  inv size: b.stack.count == len(b.stack.items) && (base(b.stack.items) == 0 || fresh(b.stack.items))
  inv nodes: forall(j, 0, len(b.stack.items), ready(b.stack.items[j], test.root))
  inv ready: 0 < len(b.stack.items) ==> ready(b.stack.items[len(b.stack.items) - 1], test.root)
  inv named: forall(j, 0, len(b.stack.items), b.stack.items[j].ID != "")
  inv{n:*testlang.Node} ready here: ready(n, test.root) && live(n)
  inv{n:*testlang.Node} named below: forall(j, 0, len(n.Next), n.Next[j].ID != "")
  inv{n:*testlang.Node} ready below: forall(j, 0, len(n.Next), ready(&n.Next[j], test.root))
  inv list: base(b.stm.States) == 0 || fresh(b.stm.States)
  inv sets: b.stm.Tests.contents != nil && fresh(b.stm.Tests.contents) && b.stm.Types != nil && fresh(b.stm.Types)
  inv types: forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  inv nodes: forall(i, 0, len(b.stm.States), b.stm.States[i] != nil && nodeOf[i] != nil && alloced(nodeOf[i]))
  inv covered: allCovered(b.stm, nodeOf)
  inv attained: allAttained(b.stm, nodeOf, att)
  ensures states of nodes: forall(i, 0, len(m.States), m.States[i] != nil && nodeOf[i] != nil)
  ensures covered: err == nil ==> allCovered(m, nodeOf)
  ensures least: err == nil ==> allAttained(m, nodeOf, att)
  ensures well formed: err == nil ==> m.Types != nil && forallkey(c, m.Types, m.Types[c] != nil && typeOK(*m.Types[c]))
  ensures fails only if unrelated: err != nil ==> exists(i, 0, len(m.States), exists(j, 0, len(m.States), unrelated(nodeOf[i], nodeOf[j])))

// Machines built in one go: each says of its test what it said when it was built, the nodes having had the identifiers ids then.
spec idsAre(sts []*State, nodeOf fn[int, *testlang.Node], ids fn[*testlang.Node, string]) bool = forall(i, 0, len(sts), sts[i].ID == ids[nodeOf[i]])
spec statesOf(sts []*State, nodeOf fn[int, *testlang.Node]) bool = forall(i, 0, len(sts), sts[i] != nil && nodeOf[i] != nil)
spec firstIs(m *Stm, nodeOf fn[int, *testlang.Node], root *testlang.Node) bool = 0 < len(m.States) && nodeOf[0] == root && m.States[0].ID == "initial"
spec readyTest(t *validate.Test) bool = t != nil && t.root != nil && okTree(t.root, t.root) && notBelow(t.root, t.root)

func Builder.BuildMany(b, s) (suite, err)
  props C07
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost uptoOf fn[*validate.Test, fn[int, string]]
  ghost idsOf fn[*validate.Test, fn[*testlang.Node, string]]
  requires b != nil
  requires forallkey(n, s, readyTest(s[n]))
  requires forallkey(n, s, forallkey(o, s, s[n] == s[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.Build(bb, t) (m, e): nodesOf = lam(x, *validate.Test, ite(x == t, its_nodeOf, nodesOf[x]))
  after Builder.Build(bb, t) (m, e): uptoOf = lam(x, *validate.Test, ite(x == t, its_upto, uptoOf[x]))
  after Builder.Build(bb, t) (m, e): idsOf = lam(x, *validate.Test, ite(x == t, lam(n, *testlang.Node, n.ID), idsOf[x]))
  inv ready: forallkey(n, s, readyTest(s[n]))
  inv{m:map[string]*Stm} new: m != nil && fresh(m)
  inv{m:map[string]*Stm} only: forallkey(n, m, DONE(n))
  inv{m:map[string]*Stm} machines: all(n, string, DONE(n) ==> has(m, n) && m[n] != nil && fresh(m[n]))
  inv{m:map[string]*Stm} states: all(n, string, DONE(n) ==> statesOf(m[n].States, nodesOf[s[n]]))
  inv{m:map[string]*Stm} ids: all(n, string, DONE(n) ==> idsAre(m[n].States, nodesOf[s[n]], idsOf[s[n]]))
  inv{m:map[string]*Stm} order: all(n, string, DONE(n) ==> inOrder(m[n].States, nodesOf[s[n]], uptoOf[s[n]]))
  inv{m:map[string]*Stm} every live node: all(n, string, DONE(n) ==> uptoOf[s[n]][len(m[n].States)] == order(s[n].root))
  inv{m:map[string]*Stm} initial: all(n, string, DONE(n) ==> firstIs(m[n], nodesOf[s[n]], s[n].root))
  inv{m:map[string]*Stm} types: all(n, string, DONE(n) ==> typesOK(m[n].Types))
  ensures types: err == nil ==> forallkey(n, s, typesOK(suite[n].Types))
  ensures one per test: err == nil ==> suite != nil && all(n, string, has(suite, n) <==> has(s, n)) && forallkey(n, s, suite[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, s, statesOf(suite[n].States, nodesOf[s[n]]))
  ensures ids of nodes: err == nil ==> forallkey(n, s, idsAre(suite[n].States, nodesOf[s[n]], idsOf[s[n]]))
  ensures in order: err == nil ==> forallkey(n, s, inOrder(suite[n].States, nodesOf[s[n]], uptoOf[s[n]]))
  ensures every live node: err == nil ==> forallkey(n, s, uptoOf[s[n]][len(suite[n].States)] == order(s[n].root))
  ensures initial: err == nil ==> forallkey(n, s, firstIs(suite[n], nodesOf[s[n]], s[n].root))

func Builder.BuildMany(b, s) (suite, err)
  aspect verdicts
  props C08
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost idsOf fn[*validate.Test, fn[*testlang.Node, string]]
  ghost whosOf fn[*validate.Test, fn[int, fn[string, int]]]
  ghost witsOf fn[*validate.Test, fn[string, int]]
  requires b != nil
  requires forallkey(n, s, readyTest(s[n]))
  requires forallkey(n, s, forallkey(o, s, s[n] == s[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.Build(bb, t) (m, e): nodesOf = lam(x, *validate.Test, ite(x == t, its_nodeOf, nodesOf[x]))
  after Builder.Build(bb, t) (m, e): idsOf = lam(x, *validate.Test, ite(x == t, lam(n, *testlang.Node, n.ID), idsOf[x]))
  after Builder.Build(bb, t) (m, e): whosOf = lam(x, *validate.Test, ite(x == t, its_whoOf, whosOf[x]))
  after Builder.Build(bb, t) (m, e): witsOf = lam(x, *validate.Test, ite(x == t, its_wit, witsOf[x]))
  inv ready: forallkey(n, s, readyTest(s[n]))
  inv{m:map[string]*Stm} new: m != nil && fresh(m)
  inv{m:map[string]*Stm} only: forallkey(n, m, DONE(n))
  inv{m:map[string]*Stm} machines: all(n, string, DONE(n) ==> has(m, n) && m[n] != nil && fresh(m[n]))
  inv{m:map[string]*Stm} states of nodes: all(n, string, DONE(n) ==> fromNodes(m[n].States, nodesOf[s[n]]))
  inv{m:map[string]*Stm} ids of nodes: all(n, string, DONE(n) ==> idsAre(m[n].States, nodesOf[s[n]], idsOf[s[n]]))
  inv{m:map[string]*Stm} verdicts: all(n, string, DONE(n) ==> allVerdicts(m[n].States, whosOf[s[n]]))
  inv{m:map[string]*Stm} named there: all(n, string, DONE(n) ==> allNamed(m[n].States, nodesOf[s[n]], whosOf[s[n]]))
  inv{m:map[string]*Stm} outcomes: all(n, string, DONE(n) ==> allOutcomes(m[n].States, nodesOf[s[n]], whosOf[s[n]]))
  inv{m:map[string]*Stm} last: all(n, string, DONE(n) ==> allLast(m[n].States, nodesOf[s[n]], whosOf[s[n]]))
  inv{m:map[string]*Stm} tests: all(n, string, DONE(n) ==> testsNamed(*m[n], witsOf[s[n]]))
  inv{m:map[string]*Stm} witness: all(n, string, DONE(n) ==> witness(*m[n], whosOf[s[n]], witsOf[s[n]]))
  inv{m:map[string]*Stm} no others: all(n, string, DONE(n) ==> noOthersNamed(*m[n], whosOf[s[n]], witsOf[s[n]]))
  inv{m:map[string]*Stm} types: all(n, string, DONE(n) ==> typesOK(m[n].Types))
  ensures types: err == nil ==> forallkey(n, s, typesOK(suite[n].Types))
  ensures one per test: err == nil ==> suite != nil && all(n, string, has(suite, n) <==> has(s, n)) && forallkey(n, s, suite[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, s, fromNodes(suite[n].States, nodesOf[s[n]]))
  ensures ids of nodes: err == nil ==> forallkey(n, s, idsAre(suite[n].States, nodesOf[s[n]], idsOf[s[n]]))
  ensures verdicts: err == nil ==> forallkey(n, s, allVerdicts(suite[n].States, whosOf[s[n]]))
  ensures named there: err == nil ==> forallkey(n, s, allNamed(suite[n].States, nodesOf[s[n]], whosOf[s[n]]))
  ensures outcomes: err == nil ==> forallkey(n, s, allOutcomes(suite[n].States, nodesOf[s[n]], whosOf[s[n]]))
  ensures last: err == nil ==> forallkey(n, s, allLast(suite[n].States, nodesOf[s[n]], whosOf[s[n]]))
  ensures tests: err == nil ==> forallkey(n, s, testsNamed(*suite[n], witsOf[s[n]]))
  ensures witness: err == nil ==> forallkey(n, s, witness(*suite[n], whosOf[s[n]], witsOf[s[n]]))
  ensures no others: err == nil ==> forallkey(n, s, noOthersNamed(*suite[n], whosOf[s[n]], witsOf[s[n]]))

// As withValues, the nodes having had the identifiers ids.
spec withValuesThen(s *State, n *testlang.Node, at fn[int, int], pos fn[int, int], k int, ids fn[*testlang.Node, string]) bool = forall(j, 0, k, live(&n.Next[j]) ==> same(s.TransitionSets[at[j]].Transitions[pos[j]].Value, n.Next[j].Event.Value) && s.TransitionSets[at[j]].Transitions[pos[j]].Next == ids[&n.Next[j]])
spec allValuesThen(sts []*State, nodeOf fn[int, *testlang.Node], atOf fn[int, fn[int, int]], posOf fn[int, fn[int, int]], ids fn[*testlang.Node, string]) bool = forall(i, 0, len(sts), withValuesThen(sts[i], nodeOf[i], atOf[i], posOf[i], len(nodeOf[i].Next), ids))

func Builder.BuildMany(b, s) (suite, err)
  aspect transitions
  props C07
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost idsOf fn[*validate.Test, fn[*testlang.Node, string]]
  ghost atsOf fn[*validate.Test, fn[int, fn[int, int]]]
  ghost possOf fn[*validate.Test, fn[int, fn[int, int]]]
  ghost fromsOf fn[*validate.Test, fn[int, fn[int, fn[int, int]]]]
  requires b != nil
  requires forallkey(n, s, readyTest(s[n]))
  requires forallkey(n, s, forallkey(o, s, s[n] == s[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.Build(bb, t) (m, e): nodesOf = lam(x, *validate.Test, ite(x == t, its_nodeOf, nodesOf[x]))
  after Builder.Build(bb, t) (m, e): idsOf = lam(x, *validate.Test, ite(x == t, lam(n, *testlang.Node, n.ID), idsOf[x]))
  after Builder.Build(bb, t) (m, e): atsOf = lam(x, *validate.Test, ite(x == t, its_atOf, atsOf[x]))
  after Builder.Build(bb, t) (m, e): possOf = lam(x, *validate.Test, ite(x == t, its_posOf, possOf[x]))
  after Builder.Build(bb, t) (m, e): fromsOf = lam(x, *validate.Test, ite(x == t, its_fromOf, fromsOf[x]))
  inv ready: forallkey(n, s, readyTest(s[n]))
  inv{m:map[string]*Stm} new: m != nil && fresh(m)
  inv{m:map[string]*Stm} only: forallkey(n, m, DONE(n))
  inv{m:map[string]*Stm} machines: all(n, string, DONE(n) ==> has(m, n) && m[n] != nil && fresh(m[n]))
  inv{m:map[string]*Stm} states of nodes: all(n, string, DONE(n) ==> fromNodes(m[n].States, nodesOf[s[n]]))
  inv{m:map[string]*Stm} ids of nodes: all(n, string, DONE(n) ==> idsAre(m[n].States, nodesOf[s[n]], idsOf[s[n]]))
  inv{m:map[string]*Stm} distinct channels: all(n, string, DONE(n) ==> allSets(m[n].States))
  inv{m:map[string]*Stm} transitions: all(n, string, DONE(n) ==> allTransitions(m[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]]))
  inv{m:map[string]*Stm} channels: all(n, string, DONE(n) ==> allChannels(m[n].States, nodesOf[s[n]], atsOf[s[n]]))
  inv{m:map[string]*Stm} values: all(n, string, DONE(n) ==> allValuesThen(m[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]], idsOf[s[n]]))
  inv{m:map[string]*Stm} no others: all(n, string, DONE(n) ==> allNoOthers(m[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]], fromsOf[s[n]]))
  inv{m:map[string]*Stm} each once: all(n, string, DONE(n) ==> allEachOnce(m[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]], fromsOf[s[n]]))
  inv{m:map[string]*Stm} types: all(n, string, DONE(n) ==> typesOK(m[n].Types))
  ensures types: err == nil ==> forallkey(n, s, typesOK(suite[n].Types))
  ensures one per test: err == nil ==> suite != nil && all(n, string, has(suite, n) <==> has(s, n)) && forallkey(n, s, suite[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, s, fromNodes(suite[n].States, nodesOf[s[n]]))
  ensures ids of nodes: err == nil ==> forallkey(n, s, idsAre(suite[n].States, nodesOf[s[n]], idsOf[s[n]]))
  ensures distinct channels: err == nil ==> forallkey(n, s, allSets(suite[n].States))
  ensures transitions: err == nil ==> forallkey(n, s, allTransitions(suite[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]]))
  ensures channels: err == nil ==> forallkey(n, s, allChannels(suite[n].States, nodesOf[s[n]], atsOf[s[n]]))
  ensures values: err == nil ==> forallkey(n, s, allValuesThen(suite[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]], idsOf[s[n]]))
  ensures no others: err == nil ==> forallkey(n, s, allNoOthers(suite[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]], fromsOf[s[n]]))
  ensures each once: err == nil ==> forallkey(n, s, allEachOnce(suite[n].States, nodesOf[s[n]], atsOf[s[n]], possOf[s[n]], fromsOf[s[n]]))

func Builder.BuildMany(b, s) (suite, err)
  aspect types
  props C09
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost attsOf fn[*validate.Test, fn[string, int]]
  requires b != nil
  requires forallkey(n, s, readyTest(s[n]))
  requires forallkey(n, s, forallkey(o, s, s[n] == s[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.Build(bb, t) (m, e): nodesOf = lam(x, *validate.Test, ite(x == t, its_nodeOf, nodesOf[x]))
  after Builder.Build(bb, t) (m, e): attsOf = lam(x, *validate.Test, ite(x == t, its_att, attsOf[x]))
  inv ready: forallkey(n, s, readyTest(s[n]))
  inv{m:map[string]*Stm} new: m != nil && fresh(m)
  inv{m:map[string]*Stm} only: forallkey(n, m, DONE(n))
  inv{m:map[string]*Stm} machines: all(n, string, DONE(n) ==> has(m, n) && m[n] != nil && fresh(m[n]))
  inv{m:map[string]*Stm} states of nodes: all(n, string, DONE(n) ==> statesOf(m[n].States, nodesOf[s[n]]))
  inv{m:map[string]*Stm} covered: all(n, string, DONE(n) ==> allCovered(*m[n], nodesOf[s[n]]))
  inv{m:map[string]*Stm} least: all(n, string, DONE(n) ==> allAttained(*m[n], nodesOf[s[n]], attsOf[s[n]]))
  inv{m:map[string]*Stm} well formed: all(n, string, DONE(n) ==> m[n].Types != nil && forallkey(c, m[n].Types, m[n].Types[c] != nil && typeOK(*m[n].Types[c])))
  ensures one per test: err == nil ==> suite != nil && all(n, string, has(suite, n) <==> has(s, n)) && forallkey(n, s, suite[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, s, statesOf(suite[n].States, nodesOf[s[n]]))
  ensures covered: err == nil ==> forallkey(n, s, allCovered(*suite[n], nodesOf[s[n]]))
  ensures least: err == nil ==> forallkey(n, s, allAttained(*suite[n], nodesOf[s[n]], attsOf[s[n]]))
  ensures well formed: err == nil ==> forallkey(n, s, suite[n].Types != nil && forallkey(c, suite[n].Types, suite[n].Types[c] != nil && typeOK(*suite[n].Types[c])))
  ensures fails only if unrelated: err != nil ==> existskey(n, s, some(i, int, some(j, int, unrelated(nodesOf[s[n]][i], nodesOf[s[n]][j]))))

// Different states of a machine have different nodes and identifiers, and there is one for each live continuation.
spec differentNodes(m *Stm, nodeOf fn[int, *testlang.Node]) bool = forall(i, 0, len(m.States), forall(j, 0, len(m.States), nodeOf[i] == nodeOf[j] ==> i == j))
spec differentIDs(m *Stm) bool = forall(i, 0, len(m.States), forall(j, 0, len(m.States), m.States[i].ID == m.States[j].ID ==> i == j))
spec stateForEach(m *Stm, nodeOf fn[int, *testlang.Node], seen fn[*testlang.Node, int]) bool = forall(i, 0, len(m.States), forall(q, 0, len(nodeOf[i].Next), live(&nodeOf[i].Next[q]) ==> 0 <= seen[&nodeOf[i].Next[q]] && seen[&nodeOf[i].Next[q]] < len(m.States) && nodeOf[seen[&nodeOf[i].Next[q]]] == &nodeOf[i].Next[q]))
spec closedTree(root *testlang.Node) bool = inTree(root, root) && all(n, *testlang.Node, forall(i, 0, len(n.Next), inTree(n, root) ==> inTree(&n.Next[i], root) && parentOf(&n.Next[i]) == n)) && all(n, *testlang.Node, inTree(n, root) ==> alloced(n))
spec unnamed(root *testlang.Node) bool = all(n, *testlang.Node, treeOf(n) == root && n != root ==> n.ID == "")

func Builder.BuildMany(b, s) (suite, err)
  aspect identifiers
  props C07
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost seenOf fn[*validate.Test, fn[*testlang.Node, int]]
  ghost fewOf fn[*validate.Test, bool]
  requires b != nil
  requires forallkey(n, s, readyTest(s[n]))
  requires forallkey(n, s, forallkey(o, s, s[n] == s[o] || s[n].root == s[o].root ==> n == o))
  requires forallkey(n, s, closedTree(s[n].root) && unnamed(s[n].root))
  modifies b, every(testlang.Node)
  after Builder.Build(bb, t) (m, e): nodesOf = lam(x, *validate.Test, ite(x == t, its_nodeOf, nodesOf[x]))
  after Builder.Build(bb, t) (m, e): seenOf = lam(x, *validate.Test, ite(x == t, its_seen, seenOf[x]))
  after Builder.Build(bb, t) (m, e): fewOf = lam(x, *validate.Test, ite(x == t, its_few, fewOf[x]))
  inv ready: forallkey(n, s, readyTest(s[n]))
  inv closed: forallkey(n, s, closedTree(s[n].root))
  inv unnamed: forallkey(n, s, !DONE(n) ==> unnamed(s[n].root))
  inv{m:map[string]*Stm} new: m != nil && fresh(m)
  inv{m:map[string]*Stm} only: forallkey(n, m, DONE(n))
  inv{m:map[string]*Stm} machines: all(n, string, DONE(n) ==> has(m, n) && m[n] != nil && fresh(m[n]))
  inv{m:map[string]*Stm} states of nodes: all(n, string, DONE(n) ==> statesOf(m[n].States, nodesOf[s[n]]))
  inv{m:map[string]*Stm} different nodes: all(n, string, DONE(n) ==> differentNodes(m[n], nodesOf[s[n]]))
  inv{m:map[string]*Stm} different ids: all(n, string, DONE(n) && fewOf[s[n]] ==> differentIDs(m[n]))
  inv{m:map[string]*Stm} a state for each continuation: all(n, string, DONE(n) ==> stateForEach(m[n], nodesOf[s[n]], seenOf[s[n]]))
  inv{m:map[string]*Stm} types: all(n, string, DONE(n) ==> typesOK(m[n].Types))
  ensures types: err == nil ==> forallkey(n, s, typesOK(suite[n].Types))
  ensures one per test: err == nil ==> suite != nil && all(n, string, has(suite, n) <==> has(s, n)) && forallkey(n, s, suite[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, s, statesOf(suite[n].States, nodesOf[s[n]]))
  ensures different nodes: err == nil ==> forallkey(n, s, differentNodes(suite[n], nodesOf[s[n]]))
  ensures different ids: err == nil ==> forallkey(n, s, fewOf[s[n]] ==> differentIDs(suite[n]))
  ensures a state for each continuation: err == nil ==> forallkey(n, s, stateForEach(suite[n], nodesOf[s[n]], seenOf[s[n]]))

// The suite has those machines, and the types that cover all of them.
func Builder.BuildSuite(b, tests) (suite, err)
  props C07
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost uptoOf fn[*validate.Test, fn[int, string]]
  ghost idsOf fn[*validate.Test, fn[*testlang.Node, string]]
  requires b != nil
  requires forallkey(n, tests, readyTest(tests[n]))
  requires forallkey(n, tests, forallkey(o, tests, tests[n] == tests[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.BuildMany(bb, s) (m, e): nodesOf = its_nodesOf
  after Builder.BuildMany(bb, s) (m, e): uptoOf = its_uptoOf
  after Builder.BuildMany(bb, s) (m, e): idsOf = its_idsOf
  ensures one per test: err == nil ==> suite != nil && suite.Tests != nil && all(n, string, has(suite.Tests, n) <==> has(tests, n)) && forallkey(n, tests, suite.Tests[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, tests, statesOf(suite.Tests[n].States, nodesOf[tests[n]]))
  ensures ids of nodes: err == nil ==> forallkey(n, tests, idsAre(suite.Tests[n].States, nodesOf[tests[n]], idsOf[tests[n]]))
  ensures in order: err == nil ==> forallkey(n, tests, inOrder(suite.Tests[n].States, nodesOf[tests[n]], uptoOf[tests[n]]))
  ensures every live node: err == nil ==> forallkey(n, tests, uptoOf[tests[n]][len(suite.Tests[n].States)] == order(tests[n].root))
  ensures initial: err == nil ==> forallkey(n, tests, firstIs(suite.Tests[n], nodesOf[tests[n]], tests[n].root))

func Builder.BuildSuite(b, tests) (suite, err)
  aspect verdicts
  props C08
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost idsOf fn[*validate.Test, fn[*testlang.Node, string]]
  ghost whosOf fn[*validate.Test, fn[int, fn[string, int]]]
  ghost witsOf fn[*validate.Test, fn[string, int]]
  requires b != nil
  requires forallkey(n, tests, readyTest(tests[n]))
  requires forallkey(n, tests, forallkey(o, tests, tests[n] == tests[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.BuildMany(bb, s) (m, e): nodesOf = its_nodesOf
  after Builder.BuildMany(bb, s) (m, e): idsOf = its_idsOf
  after Builder.BuildMany(bb, s) (m, e): whosOf = its_whosOf
  after Builder.BuildMany(bb, s) (m, e): witsOf = its_witsOf
  ensures one per test: err == nil ==> suite != nil && suite.Tests != nil && all(n, string, has(suite.Tests, n) <==> has(tests, n)) && forallkey(n, tests, suite.Tests[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, tests, fromNodes(suite.Tests[n].States, nodesOf[tests[n]]))
  ensures ids of nodes: err == nil ==> forallkey(n, tests, idsAre(suite.Tests[n].States, nodesOf[tests[n]], idsOf[tests[n]]))
  ensures verdicts: err == nil ==> forallkey(n, tests, allVerdicts(suite.Tests[n].States, whosOf[tests[n]]))
  ensures named there: err == nil ==> forallkey(n, tests, allNamed(suite.Tests[n].States, nodesOf[tests[n]], whosOf[tests[n]]))
  ensures outcomes: err == nil ==> forallkey(n, tests, allOutcomes(suite.Tests[n].States, nodesOf[tests[n]], whosOf[tests[n]]))
  ensures last: err == nil ==> forallkey(n, tests, allLast(suite.Tests[n].States, nodesOf[tests[n]], whosOf[tests[n]]))
  ensures tests: err == nil ==> forallkey(n, tests, testsNamed(*suite.Tests[n], witsOf[tests[n]]))
  ensures witness: err == nil ==> forallkey(n, tests, witness(*suite.Tests[n], whosOf[tests[n]], witsOf[tests[n]]))
  ensures no others: err == nil ==> forallkey(n, tests, noOthersNamed(*suite.Tests[n], whosOf[tests[n]], witsOf[tests[n]]))

func Builder.BuildSuite(b, tests) (suite, err)
  aspect transitions
  props C07
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost idsOf fn[*validate.Test, fn[*testlang.Node, string]]
  ghost atsOf fn[*validate.Test, fn[int, fn[int, int]]]
  ghost possOf fn[*validate.Test, fn[int, fn[int, int]]]
  ghost fromsOf fn[*validate.Test, fn[int, fn[int, fn[int, int]]]]
  requires b != nil
  requires forallkey(n, tests, readyTest(tests[n]))
  requires forallkey(n, tests, forallkey(o, tests, tests[n] == tests[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.BuildMany(bb, s) (m, e): nodesOf = its_nodesOf
  after Builder.BuildMany(bb, s) (m, e): idsOf = its_idsOf
  after Builder.BuildMany(bb, s) (m, e): atsOf = its_atsOf
  after Builder.BuildMany(bb, s) (m, e): possOf = its_possOf
  after Builder.BuildMany(bb, s) (m, e): fromsOf = its_fromsOf
  ensures one per test: err == nil ==> suite != nil && suite.Tests != nil && all(n, string, has(suite.Tests, n) <==> has(tests, n)) && forallkey(n, tests, suite.Tests[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, tests, fromNodes(suite.Tests[n].States, nodesOf[tests[n]]))
  ensures ids of nodes: err == nil ==> forallkey(n, tests, idsAre(suite.Tests[n].States, nodesOf[tests[n]], idsOf[tests[n]]))
  ensures distinct channels: err == nil ==> forallkey(n, tests, allSets(suite.Tests[n].States))
  ensures transitions: err == nil ==> forallkey(n, tests, allTransitions(suite.Tests[n].States, nodesOf[tests[n]], atsOf[tests[n]], possOf[tests[n]]))
  ensures channels: err == nil ==> forallkey(n, tests, allChannels(suite.Tests[n].States, nodesOf[tests[n]], atsOf[tests[n]]))
  ensures values: err == nil ==> forallkey(n, tests, allValuesThen(suite.Tests[n].States, nodesOf[tests[n]], atsOf[tests[n]], possOf[tests[n]], idsOf[tests[n]]))
  ensures no others: err == nil ==> forallkey(n, tests, allNoOthers(suite.Tests[n].States, nodesOf[tests[n]], atsOf[tests[n]], possOf[tests[n]], fromsOf[tests[n]]))
  ensures each once: err == nil ==> forallkey(n, tests, allEachOnce(suite.Tests[n].States, nodesOf[tests[n]], atsOf[tests[n]], possOf[tests[n]], fromsOf[tests[n]]))

func Builder.BuildSuite(b, tests) (suite, err)
  aspect types
  props C09
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost attsOf fn[*validate.Test, fn[string, int]]
  requires b != nil
  requires forallkey(n, tests, readyTest(tests[n]))
  requires forallkey(n, tests, forallkey(o, tests, tests[n] == tests[o] ==> n == o))
  modifies b, every(testlang.Node)
  after Builder.BuildMany(bb, s) (m, e): nodesOf = its_nodesOf
  after Builder.BuildMany(bb, s) (m, e): attsOf = its_attsOf
  ensures one per test: err == nil ==> suite != nil && suite.Tests != nil && all(n, string, has(suite.Tests, n) <==> has(tests, n)) && forallkey(n, tests, suite.Tests[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, tests, statesOf(suite.Tests[n].States, nodesOf[tests[n]]))
  ensures covered: err == nil ==> forallkey(n, tests, allCovered(*suite.Tests[n], nodesOf[tests[n]]))
  ensures least: err == nil ==> forallkey(n, tests, allAttained(*suite.Tests[n], nodesOf[tests[n]], attsOf[tests[n]]))
  ensures well formed: err == nil ==> forallkey(n, tests, suite.Tests[n].Types != nil && forallkey(c, suite.Tests[n].Types, suite.Tests[n].Types[c] != nil && typeOK(*suite.Tests[n].Types[c])))
  ensures suite covers: err == nil ==> forallkey(n, tests, forall(i, 0, len(suite.Tests[n].States), nodesOf[tests[n]][i].Event != nil ==> has(suite.Types, nodesOf[tests[n]][i].Event.Channel.Name) && covers(*suite.Types[nodesOf[tests[n]][i].Event.Channel.Name], nodesOf[tests[n]][i].Event.Value)))
  ensures suite least: err == nil ==> forallkey(c, suite.Types, existskey(n, tests, 0 <= attsOf[tests[n]][c] && attsOf[tests[n]][c] < len(suite.Tests[n].States) && nodesOf[tests[n]][attsOf[tests[n]][c]].Event != nil && nodesOf[tests[n]][attsOf[tests[n]][c]].Event.Channel.Name == c && attains(*suite.Types[c], nodesOf[tests[n]][attsOf[tests[n]][c]].Event.Value)))
  ensures fails only if unrelated: err != nil ==> existskey(n, tests, existskey(o, tests, some(i, int, some(j, int, unrelated(nodesOf[tests[n]][i], nodesOf[tests[o]][j])))))

func Builder.BuildSuite(b, tests) (suite, err)
  aspect identifiers
  props C07
  ghost nodesOf fn[*validate.Test, fn[int, *testlang.Node]]
  ghost seenOf fn[*validate.Test, fn[*testlang.Node, int]]
  ghost fewOf fn[*validate.Test, bool]
  requires b != nil
  requires forallkey(n, tests, readyTest(tests[n]))
  requires forallkey(n, tests, forallkey(o, tests, tests[n] == tests[o] || tests[n].root == tests[o].root ==> n == o))
  requires forallkey(n, tests, closedTree(tests[n].root) && unnamed(tests[n].root))
  modifies b, every(testlang.Node)
  after Builder.BuildMany(bb, s) (m, e): nodesOf = its_nodesOf
  after Builder.BuildMany(bb, s) (m, e): seenOf = its_seenOf
  after Builder.BuildMany(bb, s) (m, e): fewOf = its_fewOf
  ensures one per test: err == nil ==> suite != nil && suite.Tests != nil && all(n, string, has(suite.Tests, n) <==> has(tests, n)) && forallkey(n, tests, suite.Tests[n] != nil)
  ensures states of nodes: err == nil ==> forallkey(n, tests, statesOf(suite.Tests[n].States, nodesOf[tests[n]]))
  ensures different nodes: err == nil ==> forallkey(n, tests, differentNodes(suite.Tests[n], nodesOf[tests[n]]))
  ensures different ids: err == nil ==> forallkey(n, tests, fewOf[tests[n]] ==> differentIDs(suite.Tests[n]))
  ensures a state for each continuation: err == nil ==> forallkey(n, tests, stateForEach(suite.Tests[n], nodesOf[tests[n]], seenOf[tests[n]]))
